"""Contract files (.vc) -> Verus input, generated from the current sources of /repo."""
import os, re, json, subprocess, hashlib, difflib, importlib.util, time, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.realpath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('HYCU_REPO', '/repo')
sys.path.insert(0, HERE)
import cxx2verus as X

class Broken(Exception):
    """the extraction could not be done: the function left the verifier's reach"""

class VC:
    pass

def parse(name):
    path = os.path.join(VERIF, 'contracts', name)
    vc = VC()
    vc.name, vc.tus, vc.prelude, vc.fns, vc.uses, vc.path = name, [], [], {}, [], path
    vc.order = []
    vc.trusted = []
    vc.lemma_of = {}
    cur = None
    loop = None
    last = None      # (list, index) for continuation lines
    mode = None
    buf = None
    for ln, raw in enumerate(open(path), 1):
        line = raw.rstrip('\n')
        if mode == 'prelude':
            if line.strip() == '@end': mode = None; vc.prelude.append('\n'.join(buf))
            else: buf.append(line)
            continue
        if mode == 'proof':
            if line.strip() == '@end': mode = None; cur.proofs.append((place, '\n'.join(buf)))
            else: buf.append(line)
            continue
        s = line.strip()
        if not s or s.startswith('#'): continue
        if not s.startswith('@'):
            if last is None: raise SystemExit('%s:%d: %s' % (name, ln, s))
            l, i = last
            l[i] = (l[i][0], l[i][1] + ' ' + s)
            continue
        kw, _, rest = s.partition(' ')
        rest = rest.strip()
        last = None
        if kw == '@tu': vc.tus += rest.split()
        elif kw == '@use': vc.uses.append(rest)
        elif kw == '@prelude': mode, buf = 'prelude', []
        elif kw in ('@fn', '@extern'):
            m = re.fullmatch(r'(\w+)\s*=\s*(\S+(?: (?=[<>=]))?\S*)(?:\s+(\d+))?(?:\s*~\s*(.*))?', rest)
            if not m: raise SystemExit('%s:%d: bad %s' % (name, ln, kw))
            cur = X.Contract(m.group(1))
            cur.match = (m.group(2), int(m.group(3)) if m.group(3) else None, m.group(4))
            cur.external = kw == '@extern'
            cur.src = name
            cur.rlimit = None
            vc.fns[cur.rust] = cur
            vc.order.append(cur.rust)
        elif kw == '@attr': cur.attrs.append(rest)
        elif kw in ('@requires', '@ensures'):
            lab, _, tx = rest.partition(':')
            l = cur.requires if kw == '@requires' else cur.ensures
            l.append((lab.strip(), tx.strip())); last = (l, len(l) - 1)
        elif kw == '@loop':
            loop = cur.loops.setdefault(int(rest), {'inv': []})
        elif kw == '@inv':
            lab, _, tx = rest.partition(':')
            loop['inv'].append((lab.strip(), tx.strip())); last = (loop['inv'], len(loop['inv']) - 1)
        elif kw in ('@invtop', '@exit'):
            lab, _, tx = rest.partition(':')
            l = loop.setdefault(kw[1:], []); l.append((lab.strip(), tx.strip())); last = (l, len(l) - 1)
        elif kw == '@decreases': loop['decreases'] = rest
        elif kw == '@proof': mode, buf, place = 'proof', [], rest
        elif kw == '@trusted': vc.trusted.append(rest)
        else: raise SystemExit('%s:%d: %s' % (name, ln, kw))
    return vc

CLANG_FLAGS = ['-std=c++17'] + sum((['-include', h] for h in ('string', 'flint/ulong_extras.h', 'flint/fmpz.h', 'flint/nmod_poly.h', 'flint/nmod_poly_factor.h', 'flint/fq_nmod_poly.h', 'flint/fq_nmod_poly_factor.h', 'boost/serialization/vector.hpp')), []) + \
  ['-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi', '-w']

def builddir():
    d = os.path.join(VERIF, 'build'); os.makedirs(d, exist_ok=True); return d

def exporter():
    h = hashlib.sha1(open(os.path.join(VERIF, 'tools/cxxexport.cpp'), 'rb').read()).hexdigest()[:12]
    out = os.path.join(builddir(), 'cxxexport-' + h)
    if not os.path.exists(out):
        r = subprocess.run([os.path.join(VERIF, 'tools/build_exporter.sh'), out], capture_output=True, text=True, timeout=600)
        if r.returncode: raise RuntimeError('exporter does not build: ' + r.stderr[-2000:])
    return out

def export(tu):
    """tu: path relative to /repo, or verif:path for a file that only instantiates templates of /repo"""
    src = os.path.join(VERIF, tu[6:]) if tu.startswith('verif:') else os.path.join(REPO, tu)
    if not os.path.exists(src): raise Broken('%s does not exist' % tu)
    r = subprocess.run([exporter(), src] + CLANG_FLAGS + ['-I%s/src' % REPO], capture_output=True, text=True, timeout=300, env=dict(os.environ, CXXEXPORT_ROOT=os.path.realpath(REPO) + '/src/'))
    if r.returncode or not r.stdout.strip(): raise Broken('%s cannot be parsed: %s' % (tu, r.stderr[-1500:]))
    return json.loads(r.stdout)

def load_opts(name):
    p = os.path.join(VERIF, 'contracts', name[:-3] + '.py')
    if not os.path.exists(p): return {}
    sp = importlib.util.spec_from_file_location('opts_' + name[:-3], p)
    m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    return m.OPTS

def merge_opts(a, b):
    r = dict(a)
    for k, v in b.items():
        if isinstance(v, dict): r[k] = {**r.get(k, {}), **v}
        elif isinstance(v, (set, frozenset, list, tuple)): r[k] = set(r.get(k, ())) | set(v)
        else: r[k] = v
    return r

def collect(name, seen=None):
    """the contract file with everything it uses (contracts of used files are assumed here, proved there)"""
    vc = parse(name)
    opts = load_opts(name)
    seen = seen if seen is not None else set()
    pre = []
    fns = {}
    tus = []
    trusted = []
    for u in vc.uses:
        if u in seen: continue
        seen.add(u)
        v2, o2, p2 = collect(u, seen)
        opts = merge_opts(o2, opts)
        pre += p2
        trusted += v2.trusted
        for k, c in v2.allfns.items():
            c.assumed_from = getattr(c, 'assumed_from', None) or (u if not c.external else None)
            c.external = True
            fns[k] = c
    fns.update(vc.fns)
    vc.allfns = fns
    vc.trusted = trusted + vc.trusted
    return vc, opts, pre + vc.prelude

LOCALS = os.path.join(VERIF, 'contracts', 'locals.json')

def align(old, new):
    """rename map from the recorded local names to the present ones"""
    names_new = [n for n, t in new]
    ren = {}
    if old == new: return ren
    sm = difflib.SequenceMatcher(a=[tuple(x) for x in old], b=[tuple(x) for x in new], autojunk=False)
    for tag, i1, i2, j1, j2 in sm.get_opcodes():
        if tag != 'replace': continue
        a = [x for x in old[i1:i2] if x[0] not in names_new]
        b = [x for x in new[j1:j2] if x[0] not in [o[0] for o in old]]
        for n, t in a:
            for k, (m, u) in enumerate(b):
                if u == t:
                    ren[n] = m; del b[k]; break
    return ren

def rename(tx, ren):
    if not ren: return tx
    def f(m):
        w = m.group(0)
        if w in ren: return ren[w]
        if w.endswith('0') and w[:-1] in ren: return ren[w[:-1]] + '0'
        return w
    return re.sub(r'(?<![.\w])[A-Za-z_]\w*', f, tx)

def generate(name, record=None, broken=None, vacuity=False):
    """returns (rust text, info); functions in broken, and those that cannot be translated (added to it), keep only
    their contract; vacuity: every body is assert(false)"""
    strict = broken is None
    broken = {} if strict else broken
    vc, opts, preludes = collect(name)
    mod = X.Module()
    tus = list(dict.fromkeys(vc.tus))
    with ThreadPoolExecutor(8) as ex:
        exporter()
        for d in ex.map(export, tus): mod.add(d)
    g = X.Gen(mod, vc.allfns, opts)
    base = json.load(open(LOCALS)) if os.path.exists(LOCALS) else {}
    taken = set(vc.allfns) | set(re.findall(r'\bfn (\w+)', '\n'.join(preludes) + open(os.path.join(VERIF, 'contracts', 'common.rs')).read()))
    bodies = []
    info = {'functions': [], 'missing': [], 'unsupported': []}
    reclocals = {}
    for rn in vc.order:
        c = vc.fns[rn]
        if c.external: continue
        fs = mod.find(*c.match)
        if len(fs) != 1:
            if strict: raise Broken('%d functions match %s' % (len(fs), ' '.join(map(str, c.match))))
            broken[rn] = '%d functions match %s' % (len(fs), ' '.join(map(str, c.match)))
        if rn in broken: continue
        f = fs[0]
        # first pass to learn the names of the locals, second with the contract renamed
        try:
            avoid = taken - {n for n, t in base.get(rn, ())}
            fg = X.FuncGen(g, f, c); fg.avoid = avoid; fg.run()
            loc = [list(x) for x in fg.locals] 
            reclocals[rn] = loc
            ren = align(base.get(rn, loc), loc)
            c2 = c
            if ren:
                c2 = X.Contract(c.rust); c2.__dict__.update(c.__dict__)
                c2.loops = {n: {**l, **{z: [(a, rename(b, ren)) for a, b in l.get(z, [])] for z in ('inv', 'invtop', 'exit')}, **({'decreases': rename(l['decreases'], ren)} if 'decreases' in l else {})} for n, l in c.loops.items()}
                c2.proofs = [(p, rename(t, ren)) for p, t in c.proofs]
                c2.requires = [(a, rename(b, ren)) for a, b in c.requires]
                c2.ensures = [(a, rename(b, ren)) for a, b in c.ensures]
                # result structs name reference parameters by their present names
                g.results.pop('R_' + rn, None)
            fg = X.FuncGen(g, f, c2); fg.avoid = avoid
            args, R, body = fg.run()
        except X.Unsupported as e:
            if strict: raise Broken('%s: %s' % (f['name'], e))
            broken[rn] = '%s: %s' % (f['name'], e)
            g.results.pop('R_' + rn, None)
            continue
        except (KeyError, IndexError, TypeError, AttributeError, AssertionError) as e:
            if strict: raise
            if os.environ.get('VC_TRACE'): raise
            broken[rn] = '%s: translator: %r' % (f['name'], e)
            g.results.pop('R_' + rn, None)
            continue
        bodies.append((rn, c2, f, args, R, body))
        info['functions'].append({'fn': f['name'], 'contract': rn, 'line': f.get('line'), 'file': f.get('file')})
    if record is not None: record.update(reclocals)
    out = []
    if not preludes: preludes = ['']
    out.append(open(os.path.join(VERIF, 'contracts', 'common.rs')).read())
    externs = []
    for rn, c in vc.allfns.items():
        if not c.external and rn not in broken: continue
        fs = mod.find(*c.match)
        f = fs[0] if fs else None
        if f is None:
            # take the signature from a recorded call
            continue
        try: g.sig(f); g.result_struct(f, c)
        except X.Unsupported as e:
            if strict: raise Broken('%s: %s' % (f['name'], e))
            continue
        has_this, thismut, ps = g.sig(f)
        R = g.result_struct(f, c)
        args = (['this0: ' + g.rt(f['clst'])] if has_this else []) + ['%s0: %s' % (n, g.rt(t)) for n, t, o in ps] + ['%s0: %s' % x for x in g.opts.get('ghostparams', {}).get(X.strip_targs(f['name']), ())]
        externs.append((rn, c, args, R))
    for s in g.struct_order:
        out.append('pub struct %s { %s }' % (s, ', '.join('pub %s: %s' % x for x in g.structs[s])))
        out.append('impl Clone for %s { #[verifier::external_body] fn clone(&self) -> Self { *self } }\nimpl Copy for %s {}' % (s, s))
    for R, fl in g.results.items():
        out.append('pub struct %s { %s }' % (R, ', '.join('pub %s: %s' % x for x in fl)))
        out.append('impl Clone for %s { #[verifier::external_body] fn clone(&self) -> Self { *self } }\nimpl Copy for %s {}' % (R, R))
    out += preludes
    def spec(c, kind, l):
        if not l: return
        out.append('  ' + kind)
        for lab, tx in l:
            out.append('    (%s), // [%s.%s]' % (' '.join(tx.split()), c.rust, lab))
    for rn, c, args, R in externs:
        out.append('#[verifier::external_body]\npub fn %s(%s) -> (res: %s)' % (rn, ', '.join(args), R))
        spec(c, 'requires', c.requires); spec(c, 'ensures', c.ensures)
        out.append('{ unimplemented!() }')
    for rn, c, f, args, R, body in bodies:
        out.append('//@FUNCTION %s = %s' % (rn, f['name']))
        out.append('#[verifier::loop_isolation(false)]\n#[verifier::exec_allows_no_decreases_clause]')
        if any(l.get('invtop') or l.get('exit') for l in c.loops.values()): out.append('#[verifier::allow_complex_invariants]')
        for a in c.attrs: out.append('#[%s]' % a)
        out.append('pub fn %s(%s) -> (res: %s)' % (rn, ', '.join(args), R))
        spec(c, 'requires', c.requires); spec(c, 'ensures', c.ensures)
        out.append('{')
        if vacuity: body = ['  assert(false); unimplemented!()']
        for l in body:
            # label loop invariants with the function
            m = re.search(r'// \[(\w+)\]$', l)
            if m: l = l[:m.start()] + '// [%s.%s]' % (rn, m.group(1))
            out.append(l)
        out.append('}')
        out.append('//@ENDFUNCTION')
    out.append('} fn main(){}')
    text = '\n'.join(out) + '\n'
    info['inlined'] = sorted(g.inlined)
    info['dropped'] = sorted(g.dropped)
    info['vc'] = vc
    info['contracts'] = [b[0] for b in bodies]
    info['bodies'] = bodies
    info['gen'] = g
    return text, info

def count_obligations(text, info):
    """named obligations: postconditions, invariants (established and preserved), preconditions of the calls, lemma functions"""
    n = 0
    reqs = {}
    lines = text.splitlines()
    # functions with requires, by name (library prelude and contracts)
    for m in re.finditer(r'pub (?:proof |broadcast proof )?fn (\w+)(?:<[^>]*>)?\s*\([^{]*?\{', text, re.S):
        reqs[m.group(1)] = 'requires' in m.group(0)
    for rn, c, f, args, R, body in info['bodies']:
        n += len(c.ensures) + 2 * sum(len(l['inv']) + len(l.get('invtop', [])) + len(l.get('exit', [])) for l in c.loops.values())
        b = '\n'.join(body)
        for m in re.finditer(r'\b(\w+)(?:::<[^;()]*>)?\(', b):
            if reqs.get(m.group(1)): n += 1
    n += len(re.findall(r'^\s*(?:pub )?(?:broadcast )?proof fn ', text, re.M))
    return n

def run_verus(text, workdir, name, rlimit=30, extra=()):
    os.makedirs(workdir, exist_ok=True)
    rs = os.path.join(workdir, re.sub(r'\W', '_', name[:-3]) + '.rs')
    open(rs, 'w').write(text)
    cmd = ['verus', rs, '--output-json', '--time', '--error-format=json', '--multiple-errors', '4', '--triggers-mode', 'silent', '--rlimit', str(rlimit), '--num-threads', '8'] + list(extra)
    t = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=700, cwd=workdir)
    except subprocess.TimeoutExpired:
        return {'status': 'timeout', 'cmd': ' '.join(cmd), 'wall': time.time() - t, 'errors': [], 'verified': 0, 'nerr': 0}
    wall = time.time() - t
    errs, diags = [], []
    for l in r.stderr.splitlines():
        if not l.startswith('{'): diags.append(l); continue
        try: d = json.loads(l)
        except ValueError: continue
        if d.get('level') == 'error' : errs.append(d)
    res = {}
    try: res = json.loads(r.stdout)
    except ValueError: pass
    vr = res.get('verification-results', {})
    out = {'cmd': ' '.join(cmd), 'wall': wall, 'verified': vr.get('verified', 0), 'nerr': vr.get('errors', 0), 'errors': [], 'raw': r.stderr[-20000:], 'rs': rs,
           'smt_ms': (res.get('times-ms', {}).get('smt') or {}).get('total')}
    lines = text.splitlines()
    def fn_of(line):
        for i in range(min(line, len(lines)) - 1, -1, -1):
            m = re.match(r'//@(FUNCTION (\w+) = (.*)|ENDFUNCTION)', lines[i])
            if m: return m.group(2) if m.group(2) else lemma_of(line)
        return lemma_of(line)
    def lemma_of(line):
        for i in range(min(line, len(lines)) - 1, -1, -1):
            m = re.match(r'\s*(?:pub )?(?:open |closed |broadcast )*(?:proof |spec |axiom )?fn (\w+)', lines[i])
            if m: return m.group(1)
        return '?'
    compile_err = bool(vr.get('encountered-vir-error')) or not vr
    rl = False
    for d in errs:
        msg = d['message']
        if msg.startswith('aborting due to'): continue
        labs, fns = [], []
        for sp in d.get('spans', []):
            ls = sp['line_start']
            for q in range(sp['line_start'], sp['line_end'] + 1):
                if q - 1 < len(lines):
                    m = re.search(r'// \[([\w.]+)\]\s*$', lines[q - 1])
                    if m and m.group(1) not in labs: labs.append(m.group(1))
            fns.append((sp.get('is_primary'), fn_of(ls), ls, sp.get('label')))
        if 'Resource limit' in msg or 'rlimit' in msg: rl = True
        known = ('not satisfied', 'assertion failed', 'possible arithmetic', 'Resource limit', 'rlimit', 'decreases not', 'possible division', 'invariant', 'postcondition', 'precondition', 'recommendation', 'might', 'possible', 'unreachable', 'panic')
        if not any(k in msg for k in known): compile_err = True
        out['errors'].append({'message': msg, 'labels': labs, 'where': fns, 'rendered': d.get('rendered', '')})
    if not vr and not out['errors']: compile_err = True
    if compile_err: out['status'] = 'break'
    elif not out['errors'] and vr.get('success'): out['status'] = 'ok'
    elif rl: out['status'] = 'rlimit'
    else: out['status'] = 'failed'
    return out

def obligation_name(e):
    """a stable name of the failed obligation"""
    fn = None
    for p, f, l, lab in e['where']:
        if p: fn = f
    for lab in e['labels']:
        return '%s (%s) in %s' % (lab, e['message'], fn)
    return '%s in %s' % (e['message'], fn)

if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('vc'); ap.add_argument('--record', action='store_true'); ap.add_argument('--rlimit', default='30'); ap.add_argument('--gen', action='store_true'); ap.add_argument('--fn')
    a = ap.parse_args()
    rec = {}
    t = time.time()
    try: text, info = generate(a.vc, rec)
    except Broken as e: print('BREAK', e); sys.exit(2)
    if a.record:
        d = json.load(open(LOCALS)) if os.path.exists(LOCALS) else {}
        d.update(rec); json.dump(d, open(LOCALS, 'w'), indent=0, sort_keys=True)
    print('generated in %.1fs; inlined %s; dropped %s' % (time.time() - t, info['inlined'], info['dropped']))
    wd = '/tmp/w/out'
    if a.gen:
        os.makedirs(wd, exist_ok=True); open(wd + '/' + re.sub(r'\W', '_', a.vc[:-3]) + '.rs', 'w').write(text); sys.exit(0)
    r = run_verus(text, wd, a.vc, a.rlimit, ['--verify-root', '--verify-function', a.fn] if a.fn else [])
    for e in r['errors']:
        print('-----', obligation_name(e)); print(e['rendered'][:2500])
    print(r['status'], 'verified', r['verified'], 'errors', r['nerr'], 'wall %.1f' % r['wall'], 'obligations', count_obligations(text, info))
    if r['status'] == 'break' and not r['errors']: print(r['raw'][-3000:])
