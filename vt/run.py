#!/usr/bin/env python3
"""Decides one property: run.py PROPERTY [--tier quick|thorough]"""
import os, sys, re, json, time, subprocess, threading, shutil, traceback, tempfile
HERE = os.path.dirname(os.path.realpath(__file__))
sys.path.insert(0, HERE)
import vc as V
from props import PROPS, LIB
VERIF, REPO = V.VERIF, V.REPO
CXXINC = sum((['-include', h] for h in ('string', 'flint/ulong_extras.h', 'flint/fmpz.h', 'flint/nmod_poly.h', 'flint/nmod_poly_factor.h', 'flint/fq_nmod_poly.h', 'flint/fq_nmod_poly_factor.h', 'boost/serialization/vector.hpp')), [])
LINK = ['-lboost_filesystem', '-lboost_system', '-lboost_serialization', '-lflint', '-lgmp', '-lyaml-cpp', '-pthread']

def literals(files):
    s = set()
    for f in files:
        p = os.path.join(REPO, f)
        if not os.path.exists(p): continue
        t = open(p, errors='replace').read()
        t = re.sub(r'//[^\n]*|/\*.*?\*/', ' ', t, flags=re.S)
        for m in re.finditer(r'(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)[uUlL]*(?![\w.])', t):
            try: v = int(m.group(1), 0) if not re.fullmatch(r'0\d+', m.group(1)) else int(m.group(1), 8)
            except ValueError: continue
            if v < 1 << 63: s.add(v)
    return sorted(s)[:400]

# ---------------------------------------------------------------- the verifier
def prove(vcname, workdir, rlimit):
    """-> dict(status, errors, verified, obligations, functions, assumed, broken)"""
    r = {'vc': vcname, 'broken': {}, 'errors': [], 'status': 'break', 'functions': [], 'obligations': 0, 'discharged': 0, 'cmd': '', 'smt_ms': 0, 'verified': 0, 'raw': '', 'inlined': [], 'dropped': [], 'trusted': [], 'externs': []}
    broken = {}
    res = None
    for attempt in range(6):
        try: text, info = V.generate(vcname, broken=broken)
        except V.Broken as e:
            r['broken']['*'] = str(e)[:1500]; r['status'] = 'break'; return r
        res = V.run_verus(text, workdir, vcname, rlimit)
        if res['status'] != 'break': break
        # the verifier does not take the text: leave out the functions it stumbles over
        bad = {}
        for e in res['errors']:
            for prim, fn, ln, lab in e['where']:
                if prim and fn in info['contracts'] and fn not in broken: bad[fn] = e['message'] + ': ' + e['rendered'][:600]
        if not bad:
            r['broken']['*'] = (res['errors'][0]['rendered'] if res['errors'] else res.get('raw', ''))[:2500]; break
        broken.update(bad)
    r['broken'].update(broken)
    r.update(status=res['status'], cmd=res['cmd'], verified=res['verified'], smt_ms=res.get('smt_ms') or 0, raw=res.get('raw', ''), wall=res['wall'], text=text)
    r['functions'] = [f for f in info['functions']]
    r['inlined'], r['dropped'] = info['inlined'], info['dropped']
    r['trusted'] = info['vc'].trusted
    r['externs'] = [(c.rust, ' '.join(str(x) for x in c.match if x), getattr(c, 'assumed_from', None)) for c in info['vc'].allfns.values() if c.external]
    r['obligations'] = V.count_obligations(text, info)
    for e in res['errors']: r['errors'].append({'name': V.obligation_name(e), 'rendered': e['rendered'], 'message': e['message']})
    r['discharged'] = max(0, r['obligations'] - len(r['errors'])) if res['status'] in ('ok', 'failed') else 0
    r['admits'] = re.findall(r'\b(?:assume|admit)\s*\(', '\n'.join(l for l in text.splitlines() if not l.lstrip().startswith('//')))
    return r

def vacuity(vcname, workdir):
    """every contract must be satisfiable: with `assert(false)` as its body each function has to be refused"""
    text, info = V.generate(vcname, vacuity=True, broken={})
    # lemmas play no part here
    text = re.sub(r'(?m)^((?:pub )?proof fn )', r'#[verifier::external_body]\n\1', text)
    text = text.replace('} fn main(){}', 'proof fn axioms_are_consistent() { assert(false); }\n} fn main(){}')
    res = V.run_verus(text, workdir, 'vac_' + vcname, 20)
    refused = {fn for e in res['errors'] for prim, fn, ln, lab in e['where'] if prim}
    res['refused'] = len([c for c in info['contracts'] if c in refused])
    res['vacuous'] = [c for c in info['contracts'] + ['axioms_are_consistent'] if c not in refused] if res['status'] == 'failed' else 'not decided (%s)' % res['status']
    return res

# ---------------------------------------------------------------- the harness
def build_driver(cfg, out, wd):
    objs = []
    procs = []
    flags = ['-std=c++17', '-g', '-w', cfg.get('opt', '-O1')] + CXXINC + ['-I%s/%s' % (VERIF, d) for d in cfg.get('inc', [])] + ['-I%s/src' % REPO, '-I%s/drivers' % VERIF, '-I/usr/lib/x86_64-linux-gnu/openmpi/include'] + cfg.get('cflags', []) + cfg.get('san', [])
    srcs = [os.path.join(VERIF, 'drivers', cfg['driver'])] + [os.path.join(REPO, 'src', s) for s in cfg['sources']]
    for s in srcs:
        o = os.path.join(wd, re.sub(r'\W', '_', s) + '.o')
        objs.append(o)
        extra = cfg.get('driver_flags', []) if s.startswith(VERIF) else cfg.get('repo_flags', [])
        procs.append((s, subprocess.Popen(['g++'] + flags + extra + ['-c', s, '-o', o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
    err = ''
    for s, p in procs:
        e = p.communicate()[1]
        if p.returncode: err += '%s does not compile:\n%s\n' % (s, e[-3000:])
    if err: return err
    r = subprocess.run(['g++'] + cfg.get('san', []) + objs + ['-o', out] + cfg.get('ldflags', []) + LINK, capture_output=True, text=True)
    if r.returncode: return 'does not link:\n' + r.stderr[-3000:]
    return None

def run_driver(prop, cfg, tier, seed, wd, budget):
    r = {'status': 'none', 'fails': [], 'known': [], 'stats': {}, 'samples': [], 'out': '', 'cmd': ''}
    if not cfg.get('driver'): return r
    exe = os.path.join(wd, 'driver')
    e = build_driver(cfg, exe, wd)
    if e: r['status'] = 'nobuild'; r['out'] = e; return r
    lits = literals(['src/' + s for s in cfg.get('lits', cfg['sources'])])
    base = [exe, prop, '--lits', ','.join(map(str, lits))] + (['--thorough'] if tier == 'thorough' else [])
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99', UBSAN_OPTIONS='halt_on_error=1:exitcode=99', TSAN_OPTIONS='halt_on_error=1:exitcode=99:report_atomic_races=0', TMPDIR='/tmp')
    n = cfg.get('procs', 4)
    ps = []
    for k in range(n):
        cmd = base + ['--seed', str(seed * 1000 + k), '--budget', str(budget)]
        f = open(os.path.join(wd, 'drv%d.out' % k), 'w+', errors='replace')
        ps.append((cmd, f, subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=wd, env=env, stdin=subprocess.DEVNULL)))
    r['cmd'] = ' '.join(ps[0][0])
    t_end = time.time() + budget * 2 + 150
    for cmd, f, p in ps:
        to = False
        try: p.wait(max(1, t_end - time.time()))
        except subprocess.TimeoutExpired: p.kill(); p.wait(); to = True
        f.seek(0); o = f.read(); f.close()
        done = re.search(r'^DONE (\d+)$', o, re.M)
        fl = re.findall(r'^FAIL (.*)$', o, re.M)
        r['known'] += re.findall(r'^KNOWN (.*)$', o, re.M)
        for m in re.finditer(r'^STAT (\S+) (\d+)$', o, re.M): r['stats'][m.group(1)] = r['stats'].get(m.group(1), 0) + int(m.group(2))
        r['samples'] += re.findall(r'^SAMPLE (.*)$', o, re.M)[:12]
        if fl:
            for x in fl: r['fails'].append({'what': x, 'cmd': ' '.join(cmd), 'tail': o[-3000:]})
        elif to: r['timeouts'] = r.get('timeouts', 0) + 1; r['out'] += o[-2000:]
        elif not done:
            if p.returncode == 99 or 'Sanitizer' in o: r['fails'].append({'what': 'memory error: ' + (re.search(r'((?:ERROR|WARNING): \w+Sanitizer[^\n]*|runtime error[^\n]*)', o) or [''])[0], 'cmd': ' '.join(cmd), 'tail': o[-4000:]})
            else: r['fails'].append({'what': 'ends with status %d' % p.returncode, 'cmd': ' '.join(cmd), 'tail': o[-3000:]})
        else: r['ok'] = r.get('ok', 0) + 1
    r['status'] = 'fail' if r['fails'] else ('ok' if r.get('ok') else 'timeout')
    return r

# ---------------------------------------------------------------- known findings
def known_findings():
    p = os.path.join(VERIF, 'known_findings.txt'); out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\w+) key=(\S+) (.*)', l)
            if m: out.append(m.groups())
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    cfg = PROPS[prop]
    t0 = time.time()
    wd = tempfile.mkdtemp(prefix='hycu-verif-%s-' % prop)
    os.chmod(wd, 0o755)
    try: code = decide(prop, cfg, tier, seed, wd, t0)
    finally:
        if wd.startswith(tempfile.gettempdir() + '/hycu-verif-'): shutil.rmtree(wd, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)

def decide(prop, cfg, tier, seed, wd, t0):
    vcs = cfg.get('vc', [])
    proofs, drv, vac = [], {}, {}
    def do_prove(v):
        try: proofs.append(prove(v, os.path.join(wd, 'v_' + re.sub(r'\W', '_', v)), cfg.get('rlimit', 30) * (3 if tier == 'thorough' else 1)))
        except Exception as e: proofs.append({'vc': v, 'status': 'break', 'broken': {'*': traceback.format_exc()[-2000:]}, 'errors': [], 'functions': [], 'obligations': 0, 'discharged': 0, 'cmd': '', 'smt_ms': 0, 'verified': 0, 'inlined': [], 'dropped': [], 'trusted': [], 'externs': [], 'admits': []})
    def do_vac(v):
        try: vac[v] = vacuity(v, os.path.join(wd, 'w_' + re.sub(r'\W', '_', v)))
        except Exception as e: vac[v] = {'status': 'break', 'errors': [], 'info': str(e)}
    def do_drive():
        d = os.path.join(wd, 'd'); os.makedirs(d)
        try:
            bud = cfg.get('budget', 25) if tier == 'quick' else cfg.get('budget_thorough', 300)
            also = []
            def more(a, k):
                dd = os.path.join(wd, 'd%d' % k); os.makedirs(dd)
                try: also.append(run_driver(prop, dict(cfg, **a), tier, seed, dd, min(bud, 12) if tier == 'quick' else 120))
                except Exception as e: print('note: ' + str(e))
            ts = [threading.Thread(target=more, args=(a, k)) for k, a in enumerate(cfg.get('also', []))]
            for t in ts: t.start()
            drv.update(run_driver(prop, cfg, tier, seed, d, bud))
            for t in ts: t.join()
            for x in also:
                x['fails'] = [f for f in x['fails'] if 'FATAL: ThreadSanitizer' not in f['tail']]
                drv['fails'] += x['fails']; drv['samples'] += x['samples'][:3]
                for k, v in x['stats'].items(): drv['stats'][k] = drv['stats'].get(k, 0) + v
                if x['fails']: drv['status'] = 'fail'
                elif x['status'] == 'ok' and drv['status'] == 'nobuild': drv['status'] = 'ok'; print('note: a harness does not build against the present sources: ' + drv['out'][:600])
                if x['status'] == 'nobuild': print('note: a harness does not build against the present sources: ' + x['out'][:600])
        except Exception as e: drv.update({'status': 'nobuild', 'out': traceback.format_exc()[-2000:], 'fails': [], 'known': [], 'stats': {}, 'samples': [], 'cmd': ''})
    ths = [threading.Thread(target=do_drive)]
    ths[0].start()
    if vcs:
        try: V.exporter()
        except Exception as e: print('note: the exporter does not build: %s' % e)
        for v in vcs:
            t = threading.Thread(target=do_prove, args=(v,)); t.start(); ths.append(t)
            t = threading.Thread(target=do_vac, args=(v,)); t.start(); ths.append(t)
    for t in ths: t.join()
    proofs.sort(key=lambda p: p['vc'])
    # ---------------- verdict
    viol = 0
    code = 0
    keys = {k: w for p, k, w in known_findings() if p == prop}
    for k in sorted(set(drv.get('known', []))):
        kk = k.split()[0]
        if kk in keys: print('KNOWN-FINDING: property=%s %s' % (prop, keys[kk]))
        else: drv['fails'].append({'what': k, 'cmd': drv['cmd'], 'tail': ''})
    rdir = os.path.join(VERIF, 'build', 'replay'); os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, '%s.txt' % prop)
    # an obligation of a shared contract file that this property does not rest on is another check's business
    skip = cfg.get('skip')
    failed = [(p, e) for p in proofs if p['status'] == 'failed' for e in p['errors'] if not (skip and re.search(skip, e['name']))]
    for p in proofs:
        if p['status'] == 'failed' and not any(q is p for q, e in failed): p['status'] = 'ok'
    undecided = [p for p in proofs if p['status'] not in ('ok', 'failed')]
    if drv.get('fails'):
        with open(rp, 'w') as f:
            f.write('property %s is violated on the code of %s\n\nfailing input on the real code:\n' % (prop, REPO))
            for x in drv['fails']: f.write('  %s\n  (command: run.py builds the harness drivers/%s against the sources and runs: %s)\n' % (x['what'], cfg['driver'], x['cmd'].replace(wd, '<build>')))
            f.write('\nobligations that are not discharged:\n' + (''.join('  %s: %s\n' % (p['vc'], e['name']) for p, e in failed) or '  none\n'))
            for p, e in failed: f.write('\n%s\n' % e['rendered'])
            f.write('\n' + drv['fails'][0]['tail'])
        for x in drv['fails'][:3]: print('failing input: ' + x['what'][:1500])
        for p, e in failed: print('failed obligation: %s: %s' % (p['vc'], e['name']))
        print('VIOLATION property=%s replay=%s' % (prop, rp)); viol = len(drv['fails']); code = 1
    elif failed:
        with open(rp, 'w') as f:
            f.write('property %s: obligations generated from the current source of %s are not discharged; no failing input was found\n\n' % (prop, REPO))
            for p, e in failed: f.write('failed obligation %s: %s\n%s\n' % (p['vc'], e['name'], e['rendered']))
            f.write('\nverifier command: %s\n' % failed[0][0]['cmd'])
        for p, e in failed: print('failed obligation: %s: %s' % (p['vc'], e['name']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp)); viol = len(failed); code = 1
    for p in proofs:
        for fn, m in p['broken'].items(): print('note: %s: %s is out of the verifier\'s reach in the present text (undecided by proof, bounded execution only): %s' % (p['vc'], fn, m.strip().splitlines()[0][:300] if m.strip() else ''))
        if p['status'] in ('rlimit', 'timeout'): print('note: %s: the solver gave up (%s)' % (p['vc'], p['status']))
        if p.get('admits'): print('note: %s: %d assume/admit' % (p['vc'], len(p['admits'])))
    for v, x in vac.items():
        if x.get('vacuous'): print('note: vacuous contracts in %s: %s' % (v, x['vacuous']))
    if drv.get('status') == 'nobuild': print('note: the harness does not build against the present sources: ' + drv['out'][:1500])
    if drv.get('status') == 'timeout': print('note: the harness did not finish')
    okproof = [p for p in proofs if p['status'] == 'ok' and p['obligations'] > 0]
    if code == 0 and not okproof and drv.get('status') != 'ok':
        print('ERROR: neither the verifier nor the bounded execution gives an answer'); code = 2
    # ---------------- evidence
    tot = sum(p['obligations'] for p in proofs); dis = sum(p['discharged'] for p in proofs)
    lib = sorted({t for p in proofs for t in p['trusted']})
    cov = {
        'obligations': tot, 'discharged': dis,
        'checker_cmd': '; '.join(p['cmd'].replace(wd, '<build>') for p in proofs if p['cmd']) or 'none',
        'trusted_base': ['AST exporter tools/cxxexport.cpp and translator vt/cxx2verus.py (mechanical extraction, rerun on the current source)', 'clang front end 18', 'Verus and Z3'] + (LIB if proofs else []) + lib + cfg.get('trusted', []),
        'functions_under_contract': [{'function': f['fn'], 'contract': f['contract'], 'file': f.get('file'), 'line': f.get('line'), 'contract_file': p['vc']} for p in proofs for f in p['functions']],
        'inlined_helpers': sorted({x for p in proofs for x in p['inlined']}),
        'extraction_drops': sorted({x for p in proofs for x in p['dropped']}),
        'assumed_contracts': [{'name': a, 'of': b, 'proved_in': c} for p in proofs for a, b, c in p['externs']],
        'not_reached_by_proof': {p['vc'] + ':' + k: m[:200] for p in proofs for k, m in p['broken'].items()},
        'back_end': 'Verus (Z3)', 'verus_items_verified': sum(p['verified'] for p in proofs),
        'solver_s': round(sum(p['smt_ms'] for p in proofs) / 1000.0, 2),
        'verifier_wall_s': round(sum(p.get('wall', 0) for p in proofs), 1),
        'vacuity': {v: {'refused': x.get('refused'), 'vacuous': x.get('vacuous')} for v, x in vac.items()},
        'bounded': cfg.get('bounded', ''),
        'evaluations': drv.get('stats', {}).get('evaluations', 0),
        'distinct_nontrivial': drv.get('stats', {}).get('distinct', 0),
        'rule': cfg.get('rule', 'contract execution on the real code: small cases exhaustively, then random cases from the seed, boundary values and the integer literals of the code; distinct inputs are counted'),
        'sections': {k[8:]: v for k, v in drv.get('stats', {}).items() if k.startswith('section:')},
        'samples': drv.get('samples', [])[:12],
        'bounded_status': drv.get('status'),
        'explanation': cfg.get('explain', ''),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': cfg['level'], 'coverage': cov, 'assumptions': cfg.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': viol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d contract executions, %.0f s' % (prop, tot, dis, cov['evaluations'], time.time() - t0))
    return code

if __name__ == '__main__': main()
