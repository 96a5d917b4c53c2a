#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current source.

1. Every overlay of the property is woven with /repo's source and given to Verus (all obligations).
2. A second, vacuity run must *fail* an `assert(false)` at every function entry and loop body.
3. The property's driver runs the real code natively (counterexample search / replay; the bounded
   decision where an overlay cannot be applied to the source at hand).
Exit 0: held.  Exit 1: `VIOLATION property=<id> replay=<path>`.  Exit 2: no answer.
"""
import json, os, re, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import weave as WV
from rustx import Structural
REPO = '/repo'
BUILD = os.path.join(HERE, 'build')
CFG = json.load(open(os.path.join(HERE, 'checks.json')))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
VERUS = 'verus'
T0 = time.time()
OBL = re.compile(r'postcondition|precondition|assertion failed|invariant|underflow/overflow|decreases|termination|possible division|failed this|not satisfied|out of bounds|unable to prove|constructed value may fail')
LIMIT = re.compile(r'rlimit|resource limit|timed? ?out|incomplete|canceled', re.I)


def sh(cmd, timeout, **kw):
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors='replace', **kw)
        return p.returncode, p.stdout, p.stderr, time.time() - t
    except subprocess.TimeoutExpired as e:
        d = lambda b: (b or b'').decode(errors='replace') if isinstance(b, (bytes, type(None))) else b
        return -9, d(e.stdout), d(e.stderr), time.time() - t


def run_verus(path, extra=(), timeout=300):
    cmd = [VERUS, os.path.basename(path), '--crate-type=lib', '--triggers-mode', 'silent', '--output-json', '--time-expanded', '--error-format=json'] + list(extra)
    rc, out, err, dt = sh(cmd, timeout, cwd=os.path.dirname(path))
    r = dict(rc=rc, wall=dt, cmd=' '.join(cmd), verified=0, errors=0, funcs=[], diags=[], smt_ms=0, ok=False, stderr=err)
    try:
        j = json.loads(out)
        v = j.get('verification-results', {})
        r['verified'], r['errors'] = v.get('verified', 0), v.get('errors', 0)
        r['ok'] = bool(v.get('success')) and rc == 0 and r['verified'] > 0
        for m in j.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []):
                r['funcs'].append(dict(name=f['function'], mode=f.get('mode:', f.get('mode')), ms=f.get('time-micros', 0) / 1000.0, ok=f.get('success')))
        r['smt_ms'] = j.get('times-ms', {}).get('smt', {}).get('total', 0)
    except (ValueError, AttributeError): pass
    for l in err.split('\n'):
        if l.startswith('{'):
            try: d = json.loads(l)
            except ValueError: continue
            if d.get('level') == 'error' and not d['message'].startswith('aborting due'): r['diags'].append(d)
    return r


def classify(diags):
    """-> (list of failed obligations, undecided reason or None)"""
    fails, und = [], None
    for d in diags:
        m = d['message']
        if LIMIT.search(m): und = und or 'resource limit: ' + m
        elif d.get('code') is None and OBL.search(m): fails.append(d)
        else: und = und or 'not accepted: ' + d.get('rendered', m)[:600]
    return fails, und


def retry(p, name, r, tries, base, R):
    """A failing proof is tried again with more time and other solver seeds (only the functions that failed; the others stand)."""
    bad = sorted(set(re.sub(r'^' + re.escape(name) + '::', '', f['name']) for f in r['funcs'] if f['ok'] is False))
    if not bad or len(bad) > 6: bad = [None]
    def one(fn):
        last = None
        for t in tries:
            left = 420 - (time.time() - T0)
            if left < 30: break
            only = ['--verify-root', '--verify-function', fn] if fn else []
            x = run_verus(p, (base[:2] if '--rlimit' in t else base) + t + only, min(180, left)); R['runs'].append(x)
            if x['ok']: return x
            f2, u2 = classify(x['diags'])
            if u2 and not u2.startswith('resource'): return None  # (the function could not be selected)
            if f2: last = x
        return last
    with ThreadPoolExecutor(6) as ex: rs = list(ex.map(one, bad))
    if bad == [None]: return rs[0] or r
    if any(x is None for x in rs): return r
    return dict(r, ok=all(x['ok'] for x in rs), verified=r['verified'] + sum(x['verified'] for x in rs if x['ok']), diags=[d for x in rs for d in x['diags']])


def overlay_run(name, pid, wd):
    """-> dict(status='proved'|'failed'|'undecided', ...)"""
    ov = os.path.join(HERE, 'proofs', name + '.vrs')
    R = dict(overlay=name, status='undecided', reason='', fails=[], fns=[], log=[], assumed=[], runs=[], verified=0, smt_ms=0, marks=0, marks_hit=0)
    try:
        w = WV.weave(ov, REPO); wv = WV.weave(ov, REPO, vac=True)
    except Structural as e:
        R['reason'] = f'the source no longer has the shape the overlay annotates: {e}'; return R
    except RecursionError as e:
        R['reason'] = f'extraction: {e}'; return R
    p = os.path.join(wd, name + '.rs'); open(p, 'w').write('\n'.join(w.out))
    # the vacuity run asks what executions reach: the lemmas are taken as stated (the first run proves them)
    pv = os.path.join(wd, name + '_vac.rs'); open(pv, 'w').write(re.sub(r'^pub proof fn ', '#[verifier::external_body] pub proof fn ', '\n'.join(wv.out), flags=re.M))
    R.update(fns=w.fns, log=w.log, assumed=w.assumed, woven=p)
    base = ['--multiple-errors', '8']
    m = re.search(r'^// rlimit (\d+)$', open(ov).read(), re.M)
    if m: base += ['--rlimit', m.group(1)]
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(run_verus, p, base); b = ex.submit(run_verus, pv, ['--multiple-errors', '60'])
        r, rv = a.result(), b.result()
    R['runs'].append(r)
    tries = [['--rlimit', '40'], ['--rlimit', '60', '--smt-option', 'smt.random_seed=7'], ['--rlimit', '60', '--smt-option', 'smt.random_seed=23', '--smt-option', 'sat.random_seed=5']]
    best = r
    if not r['ok']:
        f, u = classify(r['diags'])
        if not u or u.startswith('resource'):
            best = retry(p, name, r, tries, base, R)
    R['verified'], R['smt_ms'], R['cmd'] = best['verified'], best['smt_ms'], best['cmd']
    R['timing'] = sorted(best['funcs'], key=lambda x: -x['ms'])[:5]
    if best['ok']:
        R['status'] = 'proved'
        # vacuity: every mark must be reported as a failing assertion
        marked = lambda x: set(int(n) for d in x['diags'] for s in d['spans'] for n in re.findall(r'vac_any\(\) == (\d+)', ' '.join(t['text'] for t in s['text'])))
        hit = marked(rv)
        # (a mark is also missed where the solver ran out of its limit: asked again with nothing of the body after it)
        late = [m for m in wv.marks if m[0] not in hit and m[1].endswith('entry')]
        if late and rv['verified'] + rv['errors'] > 0:
            text = open(pv).read()
            for m in wv.marks: text = text.replace(f'if vac_any() == {m[0]} {{ assert(false); }}', f'if vac_any() == {m[0]} {{ assert(false); }} assume(false);')
            open(pv, 'w').write(text)
            hit |= marked(run_verus(pv, ['--multiple-errors', '60', '--rlimit', '60']))
        R['marks'], R['marks_hit'] = len(wv.marks), len([m for m in wv.marks if m[0] in hit])
        miss = [m for m in wv.marks if m[0] not in hit]
        R['unreached'] = [m[1] for m in miss]
        if any(m[1].endswith('entry') for m in miss) and rv['verified'] + rv['errors'] > 0:
            R['status'] = 'undecided'; R['reason'] = 'vacuous: no execution reaches ' + ', '.join(m[1] for m in miss)
        return R
    fails, und = classify(best['diags'])
    if not fails:
        R['reason'] = und or f'Verus gave no result (exit {best["rc"]}): ' + best['stderr'][-600:]; return R
    if und and not und.startswith('resource'):
        R['reason'] = und; return R
    # which function does each failed obligation belong to
    for d in fails:
        prim = [s for s in d['spans'] if s['is_primary']] or d['spans']
        own = None
        for s in [s for s in prim + d['spans'] if os.path.basename(s['file_name']) == os.path.basename(p)]:
            for f in w.fns:
                if f['start'] <= s['line_start'] <= f['end']: own = own or f
        R['fails'].append(dict(message=d['message'], rendered=d.get('rendered', ''), fn=own and own['name'], file=own and own['file'], line=own and own['line'], props=(own and own['props']) or []))
    mine = [f for f in R['fails'] if not f['props'] or pid in f['props']]
    R['status'] = 'failed' if mine else 'proved'
    R['mine'] = mine
    if not mine: R['partial'] = 'obligations of other properties fail in this overlay'
    return R


def driver_run(crate, prop, secs=None, seed=None, tier=None):
    D = dict(crate=crate, status='none')
    man = os.path.join(HERE, 'native', crate, 'Cargo.toml')
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, 'target'), CARGO_NET_OFFLINE='true', RUST_BACKTRACE='0', RUSTFLAGS='-Awarnings')
    rc, out, err, dt = sh(['cargo', 'build', '--offline', '--locked', '--quiet', '--manifest-path', man], 400, env=env, cwd=os.path.dirname(man))
    D['build_s'] = round(dt, 1)
    if rc != 0:
        D['status'], D['reason'] = 'undecided', 'the driver does not build against this source: ' + err[-1500:]; return D
    cmd = [os.path.join(BUILD, 'target', 'debug', crate), prop, str(seed if seed is not None else SEED), tier or TIER] + ([str(secs)] if secs else [])
    rc, out, err, dt = sh(cmd, (secs or (300 if TIER == 'thorough' else 40)) + 240, env=env, cwd=BUILD)
    D['cmd'], D['wall'] = ' '.join(cmd), round(dt, 2)
    m = re.findall(r'^RESULT (\{.*\})$', out, re.M)
    if not m:
        # killed by a signal: the code under test crashed the process
        if rc < 0 and rc != -9:
            D['status'] = 'failed'; D['failures'] = [f'the process running the real code died with signal {-rc}\n{out[-800:]}{err[-800:]}']; D['evaluations'] = 0; return D
        D['status'], D['reason'] = 'undecided', f'driver ended with {rc}: {out[-500:]} {err[-500:]}'; return D
    j = json.loads(m[-1]); D.update(j)
    D['status'] = 'failed' if j['failures'] else 'held'
    return D


def known(pid):
    p = os.path.join(HERE, 'known-findings.txt'); r = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) (.*)$', l.strip())
            if m and m.group(1) == pid: r.append(m.group(2))
    return r


def trusted_scan(fn):
    t = open(fn).read() if os.path.exists(fn) else ''
    return dict(assume_specification=len(re.findall(r'\bassume_specification\b', t)), external_body=len(re.findall(r'external_body', t)),
                admit=len(re.findall(r'\badmit\s*\(', t)), assume=len(re.findall(r'\bassume\s*\(', t)), axiom=len(re.findall(r'\baxiom\b', t)), external=len(re.findall(r'external_type_specification|external_trait_specification', t)))


def main():
    pid = sys.argv[1]; c = CFG[pid]; t0 = time.time()
    wd = os.path.join(BUILD, 'w', pid); os.makedirs(wd, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with ThreadPoolExecutor(4) as ex:
        os_ = [ex.submit(overlay_run, o, pid, wd) for o in c.get('overlays', [])]
        ds = ex.submit(driver_run, *c['driver']) if c.get('driver') else None
        O = [x.result() for x in os_]; D = ds.result() if ds else dict(status='none')
    failed = [o for o in O if o['status'] == 'failed']; und = [o for o in O if o['status'] == 'undecided']
    if (failed or und) and D['status'] == 'held':
        # look harder for a failing input before reporting without one
        left = 840 - (time.time() - t0)
        D2 = driver_run(*c['driver'], secs=int(max(20, min(150, left - 260))), seed=SEED + 1000, tier='thorough')
        if D2['status'] == 'failed':
            D2['evaluations'] = D2.get('evaluations', 0) + D.get('evaluations', 0); D = D2
        elif D2['status'] == 'held':
            for k in ('evaluations', 'distinct_nontrivial'): D[k] += D2[k]
    for k in known(pid): print(f'KNOWN-FINDING: property={pid} {k}')
    verdict, rep = 'held', None
    if D['status'] == 'failed':
        verdict = 'violated'
    elif failed: verdict = 'violated-nfi'
    elif und and D['status'] != 'held': verdict = 'none'
    elif D['status'] == 'undecided' and not O: verdict = 'none'
    elif D['status'] == 'undecided' and c.get('driver_required'): verdict = 'none'
    # evidence
    proved = bool(O) and all(o['status'] == 'proved' for o in O)
    trusted = list(c.get('trusted', []))
    for o in O: trusted += o['assumed']
    scan = {o['overlay']: trusted_scan(o.get('woven', '')) for o in O}
    cov = dict(
        obligations=sum(o['verified'] + (len(o['fails']) or 0) for o in O), discharged=sum(o['verified'] for o in O),
        checker_cmd='; '.join(o.get('cmd', '') for o in O),
        trusted_base=['Verus 0.2026.09.13 and its Z3 back end', 'vstd specifications of the standard library', 'lib/weave.py extraction (edits listed under extraction_edits)'] + trusted,
        functions_under_contract=[f"{f['file']}:{f['line']} {f['name']}" + (' (assumed)' if f['extern'] else '') for o in O for f in o['fns'] if pid in f['props'] or f['extern'] or not f['props']],
        extraction_edits=[x for o in O for x in o['log']],
        assumption_scan=scan, solver_ms=sum(o['smt_ms'] for o in O), back_end='Verus (Z3 SMT)',
        slowest=[o.get('timing') for o in O],
        vacuity_marks=sum(o['marks'] for o in O), vacuity_marks_reached=sum(o['marks_hit'] for o in O),
        overlays=[dict(overlay=o['overlay'], status=o['status'], reason=o['reason'][:800], runs=len(o['runs'])) for o in O])
    if D['status'] in ('held', 'failed'):
        cov.update(evaluations=D.get('evaluations', 0), distinct_nontrivial=D.get('distinct_nontrivial', 0), rule=D.get('rule', ''), samples=D.get('samples', [])[:3] or ['(none)'], driver_cmd=D.get('cmd', ''), driver_role='bounded: native run of the real code, used for counterexamples and as labelled stand-in where no proof applies')
    else: cov['driver'] = D.get('reason', D['status'])[:600]
    level = c['level']
    if level == 'proof' and not proved and verdict in ('held', 'none'): level = 'exploration'; cov['explanation'] = 'the proof could not be applied to this source; the verdict is the bounded driver\'s'
    if level != 'proof':
        cov['bounded'] = c.get('bounded', 'the parts named in level_note are decided by the bounded driver only')
    cov.setdefault('evaluations', 0)
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=level, coverage=cov, assumptions=c.get('assumptions', []) + trusted, wall_s=round(time.time() - t0, 2), violations=0 if verdict in ('held', 'none') else 1)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for o in O: print(f"{pid} overlay {o['overlay']}: {o['status']} ({o['verified']} verified, {len(o['fails'])} failed obligations, vacuity {o['marks_hit']}/{o['marks']}) {o['reason'][:300]}")
    print(f"{pid} driver: {D['status']} evaluations={D.get('evaluations', 0)} {D.get('reason', '')[:800]}")
    if verdict.startswith('violated'):
        rd = os.path.join(BUILD, 'replay'); os.makedirs(rd, exist_ok=True)
        rep = os.path.join(rd, pid + '.txt')
        with open(rep, 'w') as f:
            f.write(f'property {pid}\n')
            for o in failed:
                for x in o['mine']: f.write(f"\nfailed obligation in {x['file']}:{x['line']} {x['fn']} (overlay {o['overlay']}): {x['message']}\n{x['rendered']}\n")
            if D['status'] == 'failed':
                f.write(f"\nfailing input on the real code, replay with: {D.get('cmd', '')}\n")
                for x in D['failures']: f.write(x + '\n')
            else: f.write('\nno failing input found by the driver\n')
        print(open(rep).read()[:3000])
        print(f'VIOLATION property={pid} replay={rep}' + (' no-failing-input-found' if verdict == 'violated-nfi' else ''))
        return 1
    if verdict == 'none':
        print(f'{pid}: no answer'); return 2
    return 0


if __name__ == '__main__': sys.exit(main())
