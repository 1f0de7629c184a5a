"""Mechanical translation of the typed clang AST of the functions in /repo/src
(as exported by tools/cxxexport.cpp) to Verus exec functions.

Values are modelled by value: a function takes the values of its parameters (and
of *this) and returns a struct holding the result and the final values of every
object it may change.  References and iterators are modelled as access paths.
Anything that the translation does not know raises Unsupported; nothing is
silently dropped except what DROPPED lists.
"""
import re, difflib

class Unsupported(Exception):
    pass

RUST_KW = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try spec proof exec ghost tracked assert assume requires ensures invariant decreases open closed res int nat old".split())

def strip_targs(s):
    out, d = [], 0
    i = 0
    while i < len(s):
        c = s[i]
        if s.startswith('operator<<', i) or s.startswith('operator>>', i): out.append(s[i:i+10]); i += 10; continue
        if s.startswith('operator<', i) or s.startswith('operator>', i) or s.startswith('operator->', i):
            n = 10 if s.startswith('operator->', i) else 9
            out.append(s[i:i+n]); i += n; continue
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif d == 0: out.append(c)
        i += 1
    return ''.join(out)

OPN = {'operator<<': 'op_shl', 'operator>>': 'op_shr', 'operator==': 'op_eq', 'operator<': 'op_lt', 'operator+=': 'op_addassign',
       'operator()': 'op_call', 'operator=': 'op_assign', 'operator[]': 'op_index', 'operator!=': 'op_ne', 'operator++': 'op_inc', 'operator>': 'op_gt', 'operator->': 'op_arrow'}
def rname(q):
    q = strip_targs(q)
    for ns in ('HyCu::CurveData::', 'HyCu::StoreData::', 'boost::serialization::', 'std::', 'HyCu::', 'boost::filesystem::', 'YAML::', 'boost::archive::'):
        q = q.replace(ns, '')
    for k, v in OPN.items():
        if q.endswith(k): q = q[:-len(k)] + v
    q = re.sub(r'[^A-Za-z0-9_]+', '_', q.replace('::', '_').replace('~', 'dtor_'))
    return q

def unq(t):
    """strip references"""
    while t and t['k'] == 'ref': t = t['t']
    return t

class Path:
    __slots__ = ('root', 'projs', 't', 'const')
    def __init__(self, root, projs=(), t=None, const=False):
        self.root, self.projs, self.t, self.const = root, tuple(projs), t, const
    def ext(self, proj, t):
        return Path(self.root, self.projs + (proj,), t, self.const)

class Contract:
    def __init__(self, rust):
        self.rust = rust
        self.requires, self.ensures = [], []       # (label, text)
        self.loops = {}                            # n -> {'inv': [(label,text)], 'decreases': text}
        self.proofs = []                           # (place, text)
        self.attrs = []
        self.match = None
        self.external = False
        self.assumed = None
        self.params = None

class Module:
    """everything known about one group of translation units"""
    def __init__(self):
        self.functions, self.records, self.vars, self.enums = {}, {}, {}, {}
    def add(self, d):
        for f in d['functions']:
            self.functions.setdefault(f['fid'] + '@' + strip_targs(f['name']), f)
        for r in d['records']:
            self.records.setdefault(strip_targs(r['name']), r)
        for v in d['vars']:
            n = strip_targs(v['name'])
            if n not in self.vars or (v.get('init') and not self.vars[n].get('init')): self.vars[n] = v
        for e in d['enums']: self.enums.setdefault(e['name'], e)
    def find(self, name, nparams=None, sub=None):
        r = []
        for f in self.functions.values():
            if strip_targs(f['name']) != name: continue
            if nparams is not None and len(f['params']) != nparams: continue
            if sub and not re.search(sub, f['fid']): continue
            r.append(f)
        return r
    def by_fid(self, fn):
        return self.functions.get(fn['fid'] + '@' + strip_targs(fn['name']))

INTS = {'u8': 'u8', 'u16': 'u16', 'u32': 'u32', 'u64': 'u64', 'i8': 'i8', 'i16': 'i16', 'i32': 'i32', 'i64': 'i64', 'bool': 'bool', 'char': 'u8'}
FLINT = {'fmpz': 'Fmpz', 'fmpz_t': 'Fmpz', 'fmpz_struct': 'Fmpz', 'nmod_poly_t': 'NmodPoly', 'nmod_poly_struct': 'NmodPoly', 'fq_nmod_t': 'NmodPoly', 'fq_nmod_struct': 'NmodPoly',
         'fq_nmod_ctx_t': 'FqCtx', 'fq_nmod_ctx_struct': 'FqCtx', 'fq_zech_t': 'Fe', 'fq_zech_struct': 'Fe', 'fq_zech_ctx_t': 'FqCtx', 'fq_zech_ctx_struct': 'FqCtx',
         'flint_rand_t': 'FlintRand', 'nmod_poly_factor_t': 'PolyFactor', 'nmod_poly_factor_struct': 'PolyFactor', 'fq_nmod_poly_factor_t': 'FqPolyFactor', 'fq_nmod_poly_factor_struct': 'FqPolyFactor', 'fq_nmod_poly_struct': 'FqPoly', 'fq_nmod_poly_t': 'FqPoly'}

class Gen:
    def __init__(self, mod, contracts, opts=None):
        self.m = mod
        self.contracts = contracts          # rust name -> Contract (incl. externals)
        self.opts = opts or {}
        self.typemap = dict(self.opts.get('types', {}))     # C++ record name -> Rust type (opaque / modelled by the contract file)
        self.itersrc = dict(self.opts.get('itersrc', {}))   # 'Class::field' -> field path of the container
        self.structs = {}                   # emitted record structs
        self.struct_order = []
        self.results = {}                   # rust fn -> struct def
        self.out = []
        self.dropped = set()
        self.used_lib = set()
        self.inlined = set()
        self.byfid = {}
        for c in contracts.values():
            if c.match:
                fs = mod.find(*c.match)
                for f in fs: self.byfid[f['fid']] = c

    # ---------------------------------------------------------------- types
    def rt(self, t):
        k = t['k']
        if k == 'ref': return self.rt(t['t'])
        if k == 'int': return INTS[t['n']] if t['n'] in INTS else self.bad('int type ' + t['n'])
        if k == 'void': return '()'
        if k == 'enum': return 'i32'
        if k == 'float': return 'CDbl'
        if k == 'flint':
            if t['n'] in FLINT: return FLINT[t['n']]
            if t['n'].startswith('mp_') : return 'u64'
            self.bad('flint type ' + t['n'])
        if k == 'ptr':
            p = t['t']
            if p['k'] == 'flint' or (p['k'] == 'rec' and p['n'] in FLINT): return self.rt(p)
            if p['k'] == 'int' and p['n'] == 'char': return 'CVec<u8>'
            return self.rt(p)
        if k == 'arr':
            if t['t']['k'] == 'int' and t['t']['n'] == 'char': return 'CVec<u8>'
            return self.bad('array')
        if k == 'rec':
            n = strip_targs(t['n'])
            n0 = n
            if t.get('args') and t['args'][0].get('k') == 'rec' and n + '<' + strip_targs(t['args'][0]['n']) + '>' in self.typemap: return self.typemap[n + '<' + strip_targs(t['args'][0]['n']) + '>']
            if n in self.typemap: 
                r = self.typemap[n]
                if '%' in r:
                    for i, a in enumerate(t['args']): r = r.replace('%%%d' % i, self.rt(a))
                return r
            if n in FLINT: return FLINT[n]
            a = t['args']
            n = n.replace('std::__cxx11::', 'std::')
            if n in ('std::vector', 'std::deque'): return 'CVec<%s>' % self.rt(a[0])
            if n in ('std::map',): return 'CMap<%s, %s>' % (self.rt(a[0]), self.rt(a[1]))
            if n in ('std::set',): return 'CSet<%s>' % self.rt(a[0])
            if n == 'std::initializer_list': return 'CVec<%s>' % self.rt(a[0])
            if n in ('std::tuple', 'std::pair'):
                if len(a) == 1: return '(%s,)' % self.rt(a[0])
                return '(' + ', '.join(self.rt(x) for x in a) + ')'
            if n in ('std::shared_ptr', 'std::__shared_ptr_access', 'std::__shared_ptr'): return 'SPtr<%s>' % self.rt(a[0])
            if n == 'std::basic_string': return 'CVec<u8>'
            if n in ('std::mutex',): return 'CMutex'
            if n in ('std::condition_variable',): return 'CCond'
            if n in ('std::basic_ostream', 'std::basic_istream', 'std::basic_stringstream', 'std::basic_fstream', 'std::basic_ios', 'std::basic_iostream'): return 'CStream'
            if n == '__gnu_cxx::__normal_iterator': return 'u64'
            if n in ('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator'):
                x = a[0]
                if x['k'] == 'rec' and x['n'] == 'std::pair': return 'MapIt<%s>' % self.rt(x['args'][0])
                return 'MapIt<%s>' % self.rt(x)
            if n0 in self.m.records: return self.record(n0)
            return self.bad('type ' + n)
        return self.bad('type kind %s %s' % (k, t.get('n')))

    def bad(self, what):
        raise Unsupported(what)

    def record(self, n):
        rn = rname(n)
        if rn in self.structs: return rn
        self.structs[rn] = None
        r = self.m.records[n]
        fl = []
        for b in r['bases']:
            if strip_targs(b['n']) in self.m.records and self.m.records[strip_targs(b['n'])]['fields']: self.bad('base class with fields ' + b['n'])
        for f in r['fields']:
            key = n + '::' + f['name']
            if key in self.opts.get('dropfields', ()): continue
            try:
                fl.append((self.fld(f['name']), self.rt(f['t'])))
            except Unsupported as e:
                raise Unsupported('field %s: %s' % (key, e))
        for x in self.opts.get('extrafields', {}).get(strip_targs(n), ()): fl.append(x)
        self.structs[rn] = fl
        self.struct_order.append(rn)
        return rn

    def fld(self, n):
        return n + '_' if n in RUST_KW else n

    def dflt(self, t):
        """value of T()"""
        r = self.rt(t)
        t = unq(t)
        if r == 'bool': return 'false'
        if r in INTS.values(): return '0' + r
        if t['k'] == 'enum': return '0i32'
        if r.startswith('CVec<'): return 'vec_new::<%s>()' % r[5:-1]
        if r.startswith('CMap<'): return 'map_new::<%s>()' % r[5:-1]
        if r.startswith('CSet<'): return 'set_new::<%s>()' % r[5:-1]
        if r.startswith('SPtr<'): return 'sptr_null::<%s>()' % r[5:-1]
        if t['k'] == 'rec' and strip_targs(t['n']) in ('std::tuple', 'std::pair'):
            return '(' + ', '.join(self.dflt(a) for a in t['args']) + (',' if len(t['args']) == 1 else '') + ')'
        if t['k'] == 'float': return 'dbl_of_i64(0)'
        if t['k'] == 'flint' or t['k'] == 'ptr': return 'arb::<%s>()' % r
        if r in self.opts.get('defaults', {}): return self.opts['defaults'][r]
        self.bad('default value of ' + r)

    # ------------------------------------------------------------ functions
    def retkind(self, f):
        """'void' | 'val' | ('self',) | ('param', i): what a returned reference denotes"""
        rt = f['ret']
        if f.get('ctor') or f.get('dtor') or rt['k'] == 'void': return 'void'
        if rt['k'] != 'ref': return 'val'
        if 'retkind' in f: return f['retkind']
        f['retkind'] = 'val'
        kinds = set()
        pid = {p['id']: i for i, p in enumerate(f['params'])}
        def rexpr(e):
            k = e['k']
            if k == 'Unary' and e['op'] == '*' and e['e']['k'] == 'This': return ('self',)
            if k == 'Ref' and e.get('dk') == 'param' and e['id'] in pid: return ('param', pid[e['id']])
            if k in ('MCall', 'Call', 'OpCall'):
                fn = e.get('fn')
                if not fn: return 'val'
                if k == 'OpCall' and e['op'] in ('<<', '>>') and not fn['repo']: return rexpr(e['args'][0])
                if not fn['repo']:
                    if k == 'Call' and strip_targs(fn['name']) == 'std::getline': return rexpr(e['args'][0])
                    return 'val'
                if fn['fid'] == f['fid']: return 'rec'
                g = self.m.by_fid(fn)
                if not g: return 'val'
                rk = self.retkind(g)
                if rk == ('self',):
                    o = e['obj'] if k == 'MCall' else e['args'][0]
                    if o['k'] == 'This' : return ('self',)
                    return rexpr(o)
                if isinstance(rk, tuple) and rk[0] == 'param':
                    args = e['args'] if not (k == 'OpCall' and fn.get('method')) else e['args'][1:]
                    return rexpr(args[rk[1]])
                return 'val'
            if k == 'Cast': return rexpr(e['e'])
            return 'val'
        def walk(s):
            if isinstance(s, dict):
                if s.get('k') == 'Lambda': return
                if s.get('k') == 'Return' and s.get('e'): kinds.add(rexpr(s['e']))
                for v in s.values(): walk(v)
            elif isinstance(s, list):
                for v in s: walk(v)
        walk(f['body'])
        kinds.discard('rec')
        if len(kinds) == 1: f['retkind'] = kinds.pop()
        return f['retkind']

    @staticmethod
    def out_param(t):
        """is a parameter of this type something the callee may change for the caller?"""
        if t['k'] == 'ref': return not t['t'].get('const') and not (t['t']['k'] == 'ptr' and False)
        if t['k'] == 'flint': return not t.get('const')
        if t['k'] == 'ptr' and (t['t']['k'] == 'flint' or (t['t']['k'] == 'rec' and (t['t']['n'] in FLINT))): return not t['t'].get('const')
        return False

    def sig(self, f):
        """(this?, thismut, [(name, rusttype, out)], retkind)"""
        has_this = bool(f.get('cls')) and not f.get('static') and not f.get('ctor')
        ps = []
        for i, p in enumerate(f['params']):
            nm = p.get('name') or 'arg%d' % i
            ps.append((self.fld(nm), p['t'], self.out_param(p['t']) ))
        return has_this, has_this and not f.get('const'), ps

    def result_struct(self, f, c):
        name = 'R_' + c.rust
        if name in self.results: return name
        fl = []
        has_this, thismut, ps = self.sig(f)
        rk = self.retkind(f)
        if rk == 'val': fl.append(('ret', self.rt(f['ret'])))
        if thismut or f.get('ctor'): fl.append(('this', self.rt(f['clst'])))
        for n, t, o in ps:
            if o: fl.append((n, self.rt(t)))
        fl += self.opts.get('ghostparams', {}).get(strip_targs(f['name']), [])
        self.results[name] = fl
        return name

    def function(self, f, c):
        fg = FuncGen(self, f, c)
        return fg.run()


class FuncGen:
    avoid = frozenset()       # names of functions that no new local may hide
    def __init__(self, g, f, c):
        self.g, self.f, self.c = g, f, c
        self.buf = []
        self.env = {}
        self.tmp = 0
        self.loopn = 0
        self.retn = 0
        self.ind = 1
        self.inline_stack = []
        self.thispath = None
        self.thistype = None
        self.locals = []          # (rust name, rust type) in order of declaration
        self.loopvars = []        # stack of (continue code)
        self.calls = {}
        self.ret_target = None    # for inlined functions
        self.loopalias = {}
        self.frozen = set()

    # --------------------------------------------------------------- output
    def emit(self, s):
        self.buf.append('  ' * self.ind + s)
    def fresh(self, p='t'):
        self.tmp += 1
        return '%s_%d' % (p, self.tmp)
    def bad(self, w):
        raise Unsupported('%s (line %s)' % (w, getattr(self, 'line', '?')))
    def capture(self, fn):
        old, self.buf = self.buf, []
        r = fn()
        b, self.buf = self.buf, old
        return b, r
    def hoist(self, code, p='t'):
        if re.fullmatch(r'[A-Za-z_][A-Za-z0-9_]*|\d+[ui]\d+|true|false', code): return code
        t = self.fresh(p)
        self.emit('let %s = %s;' % (t, code))
        return t
    def hints(self, place):
        for pl, tx in self.c.proofs:
            if pl == place:
                for l in tx.splitlines(): self.emit(l)

    # ----------------------------------------------------------------- main
    def run(self):
        g, f, c = self.g, self.f, self.c
        has_this, thismut, ps = g.sig(f)
        R = g.result_struct(f, c)
        args = []
        if has_this:
            args.append('this0: ' + g.rt(f['clst']))
            self.emit('let mut this = this0;')
        if has_this or f.get('ctor'):
            self.thistype = f['clst']
            self.thispath = Path('this', (), f['clst'], const=bool(f.get('const')))
        for (n, t, o), p in zip(ps, f['params']):
            args.append('%s0: %s' % (n, g.rt(t)))
            self.emit('let mut %s = %s0;' % (n, n))
            self.env[p['id']] = ('var', n, unq(p['t']))
            self.locals.append((n, g.rt(t)))
        for n, t in g.opts.get('ghostparams', {}).get(strip_targs(f['name']), ()):
            args.append('%s0: %s' % (n, t))
            self.emit('let mut %s = %s0;' % (n, n))
        self.outs = [n for n, t, o in ps if o]
        self.R = R
        self.rk = g.retkind(f)
        if f.get('ctor'): self.ctor_init(f)
        self.hints('begin')
        self.block(f['body'])
        if not self.terminated(f['body']):
            if self.rk == 'val':
                # the end of a function with a result must not be reached
                self.emit('assert(false);')
                self.do_return('arb::<%s>()' % dict(g.results[self.R])['ret'])
            else: self.do_return(None)
        return args, R, self.buf

    def terminated(self, s):
        if not s: return False
        k = s['k']
        if k in ('Return',): return True
        if k == 'Block': return bool(s['b']) and self.terminated(s['b'][-1])
        if k == 'If': return bool(s['b']) and self.terminated(s['a']) and self.terminated(s['b'])
        return False

    def ctor_init(self, f):
        g = self.g
        T = g.rt(f['clst'])
        rec = g.m.records[strip_targs(f['cls'])]
        deleg = [i for i in f['inits'] if i['kind'] == 'delegating']
        if deleg:
            self.emit('let mut this = %s;' % self.val(deleg[0]['e']))
            return
        self.emit('let mut this: %s = arb::<%s>();' % (T, T))
        for x, y in g.opts.get('initfields', {}).get(strip_targs(f['cls']), ()): self.emit('this.%s = %s;' % (x, y))
        done = {}
        fieldt = {x['name']: x for x in rec['fields']}
        # inits are listed by clang in initialisation order, incl. the implicit ones
        for i in f['inits']:
            if i['kind'] == 'base': continue
            if (strip_targs(f['cls']) + '::' + i['name']) in g.opts.get('dropfields', ()): continue
            done[i['name']] = 1
            v = self.val(i['e'], want=i['ft'])
            self.emit('this.%s = %s;' % (g.fld(i['name']), v))

    def do_return(self, v):
        self.retn += 1
        self.ret_line(v)

    def ret_line(self, v):
        g = self.g
        parts = []
        for n, t in g.results[self.R]:
            if n == 'ret': parts.append('ret: ' + v)
            else: parts.append('%s: %s' % (n, n))
        if v is not None and self.c.proofs and self.rk == 'val' and not re.fullmatch(r'\w+', v):
            self.emit('let ret = %s;' % v); parts[0] = 'ret: ret'
        elif v is not None and self.rk == 'val':
            self.emit('let ret = %s;' % v); parts[0] = 'ret: ret'
        self.unlock()
        self.hints('return')
        self.hints('return %d' % self.retn)
        self.emit('return %s { %s };' % (self.R, ', '.join(parts)))

    # ------------------------------------------------------------ statements
    def block(self, s):
        if s is None: return
        keys = set(self.env)
        if s['k'] == 'Block':
            for x in s['b']: self.stmt(x)
        else:
            self.stmt(s)
        self.leave(keys, self.terminated(s) or self.jumps(s))

    def jumps(self, s):
        if s['k'] == 'Block': return bool(s['b']) and self.jumps(s['b'][-1])
        return s['k'] in ('Break', 'Continue')

    def leave(self, keys, left=False):
        if not left: self.unlock(keys)
        for k in [k for k in self.env if k not in keys]: del self.env[k]

    def unlock(self, keys=()):
        """the destructors of the locks that go out of scope"""
        for k in reversed([k for k in self.env if k not in keys]):
            b = self.env[k]
            if b[0] == 'lock':
                self.emit('if %s {' % b[1])
                self.write(b[2], 'mutex_unlock(%s)' % self.read(b[2]))
                self.emit('}')

    def newname(self, n):
        """a name that does not hide a variable that is still in scope"""
        live = set()
        for b in self.env.values():
            if b[0] in ('var', 'iter'): live.add(b[1])
            if b[0] == 'alias': live.add(b[1].root)
            if b[0] == 'iter' and b[3]: live.add(b[3][1].root)
        if n in self.avoid: n = n + '_v'
        return self.fresh(n) if n in live else n

    def sub(self, s):
        """a nested block"""
        self.ind += 1
        self.block(s)
        self.ind -= 1

    def stmt(self, s):
        k = s['k']
        self.line = s.get('line')
        m = getattr(self, 's_' + k, None)
        if not m: self.bad('statement ' + k)
        m(s)

    def s_Null(self, s): pass
    def s_Block(self, s):
        self.emit(';{')
        self.sub(s)
        self.emit('}')
    def s_Expr(self, s): self.effect(s['e'])

    def declname(self, n):
        return self.newname(self.g.fld(n))

    def s_Decl(self, s):
        for d in s['d']:
            if 'unsupported' in d: self.bad('declaration ' + d['unsupported'])
            self.decl(d)

    def decl(self, d):
        g = self.g
        if d.get('static'): self.bad('static local')
        t = d['t']
        n = self.declname(d['name'])
        init = d.get('init')
        if d.get('bindings'):
            src = init
            p = self.path_or_tmp(src)
            for i, b in enumerate(d['bindings']):
                self.env[b['id']] = ('alias', p.ext(('tup', i), b['t']))
            return
        if t['k'] == 'ref' or t['k'] == 'lambda':
            if t['k'] == 'lambda':
                if init and init['k'] == 'Construct' and init['args']: init = init['args'][0]
                if not init or init['k'] != 'Lambda': self.bad('lambda variable')
                self.env[d['id']] = ('lambda', init)
                return
            p = self.path(init)
            if p is not None:
                p = Path(p.root, self.snapshot(p.projs), p.t or unq(t), p.const or bool(t['t'].get('const')))
                self.env[d['id']] = ('alias', p)
                return
            # reference bound to a temporary
            v = self.val(init)
            self.emit('let mut %s = %s;' % (n, v))
            self.env[d['id']] = ('var', n, unq(t))
            self.locals.append((n, g.rt(t)))
            return
        if self.is_iter(t) and init is not None:
            e, cont = self.iterval(init)
            if e is not None:
                self.emit('let mut %s = %s;' % (n, e))
                self.env[d['id']] = ('iter', n, t, cont)
                self.locals.append((n, g.rt(t)))
                return
        if t['k'] == 'rec' and strip_targs(t['n']) in ('std::unique_lock', 'std::lock_guard', 'std::scoped_lock'):
            if not init or init['k'] != 'Construct' or len(init['args']) != 1: self.bad('lock')
            p = self.path(init['args'][0])
            if p is None: self.bad('mutex')
            self.emit('let mut %s: bool = true;' % n)
            self.write(p, 'mutex_lock(%s)' % self.read(p))
            self.interfere(init['args'][0], p)
            self.env[d['id']] = ('lock', n, p, init['args'][0])
            self.locals.append((n, 'bool'))
            return
        rt = g.rt(t)
        self.locals.append((n, rt))
        if init is None:
            v = 'arb::<%s>()' % rt
        else:
            v = self.val(init, want=t)
        self.emit('let mut %s: %s = %s;' % (n, rt, v))
        self.env[d['id']] = ('var', n, unq(t))

    def interfere(self, o, p):
        # what other threads may have done before the lock was acquired
        while o['k'] in ('Cast', 'Paren'): o = o['e']
        h = self.g.opts.get('envlock', {}).get(strip_targs(o.get('cls', '')) + '::' + o.get('name', ''))
        if not h: return
        if not isinstance(h, str): h = h.get(self.c.rust, h.get('*'))
        if not h: return
        b = Path(p.root, p.projs[:-1], None)
        self.write(b, '%s(%s)' % (h, self.read(b)))
        self.hints('after lock')

    def snapshot(self, projs):
        # a reference keeps denoting the element it was bound to when the index variable changes
        r = []
        for pr in projs:
            if pr[0] in ('vec', 'map', 'mapelem', 'mapkey') and re.fullmatch(r'[A-Za-z_]\w*', pr[1]) and not re.fullmatch(r'\w+_\d+|key\d+', pr[1]):
                t = self.fresh('ix')
                self.emit('let %s = %s;' % (t, pr[1]))
                pr = (pr[0], t)
            r.append(pr)
        return tuple(r)

    def is_iter(self, t):
        return t['k'] == 'rec' and strip_targs(t['n']) in ('__gnu_cxx::__normal_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator')

    def cond(self, e):
        v = self.val(e)
        t = e.get('t')
        return v

    def s_If(self, s):
        if s.get('init'): self.emit('{'); self.stmt(s['init'])
        if s.get('condvar'): self.bad('condition variable')
        c = self.cond(s['c'])
        self.emit('if %s {' % c)
        self.sub(s['a'])
        if s['b']:
            self.emit('} else {')
            self.sub(s['b'])
        self.emit('}')
        if s.get('init'): self.emit('}')

    def s_Return(self, s):
        e = s.get('e')
        if self.inline_stack:
            fr = self.inline_stack[-1]
            if fr['loops'] != len(self.loopvars): self.bad('return inside a loop of an inlined function')
            if e is not None and fr['var']:
                self.emit('%s = %s;' % (fr['var'], self.val(e, want=fr['t'])))
            elif e is not None:
                self.effect(e)
            return
        if e is None:
            return self.do_return(None)
        if self.rk == 'val':
            v = self.val(e, want=self.f['ret'])
            return self.do_return(v)
        # returned reference to *this or to a parameter
        self.effect(e)
        self.do_return(None)

    def s_Break(self, s):
        if not self.loopvars: self.bad('break')
        if self.loopvars[-1][0] == 'switch': 
            self.bad('break in switch')
        self.unlock(self.loopvars[-1][3])
        self.emit('break;')
    def s_Continue(self, s):
        if not self.loopvars: self.bad('continue')
        self.unlock(self.loopvars[-1][3])
        for l in self.loopvars[-1][1]: 
            self.buf.append(l)
        self.emit('continue;')

    def loop_header(self, n):
        lc = self.c.loops.get(n, {})
        self.emit('loop')
        for key, kind in (('invtop', 'invariant_except_break'), ('inv', 'invariant'), ('exit', 'ensures')):
            inv = lc.get(key, [])
            if not inv: continue
            self.emit('  ' + kind)
            for lab, tx in inv:
                tx = ' '.join(tx.split())
                self.emit('    %s, // [%s]' % (tx, lab))
        if lc.get('decreases'):
            self.emit('  decreases %s' % lc['decreases'])

    def loop(self, cond, inc, body, pre_body=None, infinite=False):
        self.loopn += 1
        n = self.loopn
        self.hints('before loop %d' % n)
        self.loop_header(n)
        self.emit('{')
        self.ind += 1
        self.hints('loop %d top' % n)
        if cond is not None:
            c = cond()
            if c != 'true':
                self.emit('if !(%s) { break; }' % c)
        self.hints('loop %d begin' % n)
        if pre_body: pre_body()
        incbuf, _ = self.capture(lambda: inc() if inc else None)
        hb, _ = self.capture(lambda: self.hints('loop %d end' % n))
        self.loopvars.append(('loop', hb + incbuf, n, set(self.env)))
        self.block(body)
        self.loopvars.pop()
        if not self.terminated_loopbody(body):
            self.hints('loop %d end' % n)
            if inc: inc()
            self.hints('loop %d endinc' % n)
        self.ind -= 1
        self.emit('}')
        self.hints('after loop %d' % n)

    def terminated_loopbody(self, s):
        if not s: return False
        k = s['k']
        if k in ('Return', 'Break', 'Continue'): return True
        if k == 'Block': return bool(s['b']) and self.terminated_loopbody(s['b'][-1])
        if k == 'If': return bool(s['b']) and self.terminated_loopbody(s['a']) and self.terminated_loopbody(s['b'])
        return False

    def s_While(self, s):
        if s.get('condvar'): self.bad('condition variable')
        self.loop(lambda: self.cond(s['c']), None, s['body'])

    def s_For(self, s):
        if s.get('condvar'): self.bad('condition variable')
        keys = set(self.env)
        if s['init']: self.stmt(s['init'])
        self.loop((lambda: self.cond(s['c'])) if s['c'] else None,
                  (lambda: self.effect(s['inc'])) if s['inc'] else None, s['body'])
        self.leave(keys)

    def s_Do(self, s):
        c = s['c']
        if c['k'] == 'Bool' and not c['v'] or (c['k'] == 'Cast' and c['e']['k'] == 'Int' and c['e']['v'] == '0') :
            # do { } while (0): a plain block
            if self.has_break(s['body']): self.bad('break in do-while(0)')
            self.emit(';{'); self.sub(s['body']); self.emit('}')
            return
        # do B while (c)   ==>   loop { B; if !c break; }
        self.loopn += 1
        n = self.loopn
        self.hints('before loop %d' % n)
        self.loop_header(n)
        self.emit('{')
        self.ind += 1
        self.hints('loop %d begin' % n)
        if self.has_break(s['body'], cont=True): self.bad('continue in do loop')
        self.loopvars.append(('loop', [], n, set(self.env)))
        self.block(s['body'])
        self.loopvars.pop()
        self.hints('loop %d end' % n)
        v = self.cond(c)
        self.emit('if !(%s) { break; }' % v)
        self.ind -= 1
        self.emit('}')
        self.hints('after loop %d' % n)

    def has_break(self, s, cont=False):
        if isinstance(s, list): return any(self.has_break(x, cont) for x in s)
        if not isinstance(s, dict): return False
        k = s.get('k')
        if k in ('While', 'For', 'Do', 'RangeFor', 'Lambda'): return False
        if k == 'Continue': return True
        if k == 'Break': return not cont
        return any(self.has_break(v, cont) for v in s.values())

    def s_RangeFor(self, s):
        g = self.g
        if s.get('init'): self.stmt(s['init'])
        rt = g.rt(unq(s['ranget']))
        p = self.path_or_tmp(s['range'])
        v = s['var']
        n = self.loopn + 1
        it = 'it%d' % n
        self.locals.append((it, 'u64'))
        keys = set(self.env)
        self.emit('let mut %s: u64 = 0;' % it)
        byref = v['t']['k'] == 'ref'
        if rt.startswith('CVec<'):
            src = p
            elt = rt[5:-1]
            ln = lambda: 'vec_len(%s)' % self.read(src)
            def bind():
                ep = src.ext(('vec', it), unq(v['t']))
                self.bindelem(v, ep, byref, it)
        elif rt.startswith('CMap<'):
            self.emit('let keys%d = map_keys(%s);' % (n, self.read(p)))
            src = p
            ln = lambda: 'vec_len(keys%d)' % n
            def bind():
                kv = 'key%d' % n
                self.emit('let %s = vec_at(keys%d, %s);' % (kv, n, it))
                ep = src.ext(('mapelem', kv), unq(v['t']))
                self.bindelem(v, ep, byref, it)
        elif rt.startswith('CSet<'):
            self.emit('let keys%d = set_elems(%s);' % (n, self.read(p)))
            ln = lambda: 'vec_len(keys%d)' % n
            def bind():
                self.bindelem(v, Path('keys%d' % n, (('vec', it),), unq(v['t'])), byref, it)
        elif rt in g.opts.get('ranges', {}):
            self.emit('let keys%d = %s(%s);' % (n, g.opts['ranges'][rt], self.read(p)))
            ln = lambda: 'vec_len(keys%d)' % n
            def bind():
                self.bindelem(v, Path('keys%d' % n, (('vec', it),), unq(v['t'])), byref, it)
        else: self.bad('range for over ' + rt)
        self.loop(lambda: '%s < %s' % (it, ln()), lambda: self.emit('%s = it_inc(%s);' % (it, it)), s['body'], pre_body=bind)
        self.leave(keys)

    def bindelem(self, v, ep, byref, it):
        n = self.declname(v['name'])
        if v.get('bindings'):
            for i, b in enumerate(v['bindings']):
                self.env[b['id']] = ('alias', self.pairext(ep, i, b['t']))
            return
        if byref:
            self.env[v['id']] = ('alias', ep)
        else:
            if ep.projs and ep.projs[-1][0] == 'mapelem':
                self.env[v['id']] = ('alias', ep)   # copy of a pair that is only read
                self.frozen.add(v['id'])
                return
            self.emit('let mut %s = %s;' % (n, self.read(ep)))
            self.env[v['id']] = ('var', n, unq(v['t']))
            self.locals.append((n, self.g.rt(v['t'])))

    def s_Switch(self, s):
        # only the form: every case group ends with break/return
        body = s['body']
        if body['k'] != 'Block': self.bad('switch body')
        c = self.hoist(self.val(s['c']), 'sw')
        groups, cur = [], None
        def flat(x):
            labs = []
            while x['k'] in ('Case', 'Default'):
                labs.append(x.get('v') if x['k'] == 'Case' else None)
                x = x['s']
            return labs, x
        for x in body['b']:
            if x['k'] in ('Case', 'Default'):
                labs, inner = flat(x)
                groups.append((labs, [inner]))
            else:
                if not groups: self.bad('switch')
                groups[-1][1].append(x)
        first = True
        dflt = None
        t = self.g.rt(s['c']['t'])
        for labs, st in groups:
            while st and st[-1]['k'] in ('Break', 'Null'): st = st[:-1]
            if self.has_break(st): self.bad('break inside switch')
            if None in labs: dflt = st; continue
            self.emit(('if ' if first else '} else if ') + ' || '.join('%s == %s%s' % (c, l, t) for l in labs) + ' {')
            first = False
            self.ind += 1
            for y in st: self.stmt(y)
            self.ind -= 1
        if dflt is not None and not first:
            self.emit('} else {')
            self.ind += 1
            for y in dflt: self.stmt(y)
            self.ind -= 1
        if not first: self.emit('}')
        elif dflt:
            for y in dflt: self.stmt(y)

    # ------------------------------------------------------------- paths
    def read(self, p):
        return self.readprojs(p.root, p.projs)
    def readprojs(self, base, projs):
        for pr in projs:
            k = pr[0]
            if k == 'field': base = '%s.%s' % (base, pr[1])
            elif k == 'tup': base = '%s.%d' % (base, pr[1])
            elif k == 'vec': base = 'vec_at(%s, %s)' % (base, pr[1])
            elif k == 'map': base = 'map_at(%s, %s)' % (base, pr[1])
            elif k == 'sptr': base = 'sptr_get(%s)' % base
            elif k == 'mapelem': base = '(%s, map_at(%s, %s))' % (pr[1], base, pr[1])
            elif k == 'mapkey': base = pr[1]
            else: raise Unsupported('proj ' + k)
        return base

    def update(self, base, projs, v):
        if not projs: return v
        k = projs[0][0]
        x = projs[0][1] if len(projs[0]) > 1 else None
        if k in ('field', 'tup'):
            t = self.fresh('u')
            inner = self.update('%s.%s' % (t, x), projs[1:], v)
            return '{ let mut %s = %s; %s.%s = %s; %s }' % (t, base, t, x, inner, t)
        if k == 'vec':
            return 'vec_set(%s, %s, %s)' % (base, x, self.update('vec_at(%s, %s)' % (base, x), projs[1:], v))
        if k == 'map':
            return 'map_put(%s, %s, %s)' % (base, x, self.update('map_at(%s, %s)' % (base, x), projs[1:], v))
        if k == 'sptr':
            return 'sptr_set(%s, %s)' % (base, self.update('sptr_get(%s)' % base, projs[1:], v))
        raise Unsupported('update through ' + k)

    def write(self, p, v):
        if p.const: self.bad('write to const object')
        v = self.hoist(v) if not re.fullmatch(r'\w+', v) else v
        i = 0
        base = p.root
        while i < len(p.projs) and p.projs[i][0] in ('field', 'tup'):
            base = '%s.%s' % (base, p.projs[i][1]); i += 1
        self.emit('%s = %s;' % (base, self.update(base, p.projs[i:], v)))

    def pairext(self, p, i, t):
        """p.first / p.second"""
        if p.projs and p.projs[-1][0] == 'mapelem':
            key = p.projs[-1][1]
            if i == 0: return Path(p.root, p.projs[:-1] + (('mapkey', key),), t, True)
            return Path(p.root, p.projs[:-1] + (('map', key),), t, p.const)
        return p.ext(('tup', i), t)

    def path(self, e):
        """access path of an lvalue expression, or None"""
        g = self.g
        k = e['k']
        self.line = e.get('line', getattr(self, 'line', None))
        if k == 'Ref':
            if e['id'] in self.env:
                b = self.env[e['id']]
                if b[0] == 'var': return Path(b[1], (), b[2])
                if b[0] == 'alias': return b[1]
                if b[0] == 'iter': return Path(b[1], (), b[2])
                return None
            if e.get('bind'): return self.path(e['bind'])
            if e.get('dk') in ('global', 'staticlocal'):
                nm = strip_targs(e['q'])
                if nm in g.opts.get('globals', {}):
                    return Path(g.opts['globals'][nm], (), e['t'])
                return None
            return None
        if k == 'This':
            return self.thispath
        if k == 'Unary' and e['op'] == '*':
            return self.deref(e['e'])
        if k == 'Unary' and e['op'] == '&':
            return self.path(e['e'])
        if k == 'Unary' and e['op'] in ('++', '--') and not e['post']:
            self.effect(e)
            return self.path_noeffect(e['e'])
        if k == 'Member':
            if e.get('staticvar'):
                nm = strip_targs(e['staticvar'])
                if nm in g.opts.get('globals', {}):
                    r = g.opts['globals'][nm]
                    if nm in g.opts.get('guards', {}): self.emit('mutex_guard(%s);' % g.opts['guards'][nm])
                    if r.startswith('this.'):
                        return Path('this', tuple(('field', x) for x in r[5:].split('.')), e['t'])
                    return Path(r, (), e['t'])
                return None
            if e['arrow'] and e['base']['k'] != 'This':
                b = self.deref(e['base'])
            else:
                b = self.path(e['base'])
            if b is None:
                b = self.tmp_path(e['base'])
            cls = strip_targs(e.get('cls', ''))
            if e.get('cls', '').startswith('std::pair'):
                return self.pairext(b, 0 if e['name'] == 'first' else 1, e['t'])
            if (cls + '::' + e['name']) in g.opts.get('dropfields', ()): self.bad('field %s is dropped' % e['name'])
            if cls + '::' + e['name'] in g.opts.get('libfields', {}):
                fn = g.opts['libfields'][cls + '::' + e['name']]
                return Path(self.hoist('%s(%s)' % (fn, self.read(b))), (), e['t'], True)
            if cls + '::' + e['name'] in g.opts.get('guards', {}) and self.c.rust not in g.opts.get('unguarded', ()):
                self.emit('mutex_guard(%s);' % self.read(b.ext(('field', g.opts['guards'][cls + '::' + e['name']]), None)))
            return b.ext(('field', g.fld(e['name'])), e['t'])
        if k == 'Cast':
            if e['ck'] in ('UncheckedDerivedToBase', 'DerivedToBase', 'BitCast', 'NoOp'): return self.path(e['e'])
            return None
        if k == 'Binary' and e['op'] == '+' and e['t']['k'] == 'ptr' and e['l']['k'] == 'Member' and strip_targs(e['l'].get('cls', '')) + '::' + e['l']['name'] in g.opts.get('libfields', {}):
            # p + i where p is the array of a library structure
            b = self.path(e['l'])
            i = self.hoist(self.idx(e['r']), 'i')
            return b.ext(('vec', i), e['t']['t'])
        if k == 'Index':
            b = self.path(e['base']) or self.tmp_path(e['base'])
            i = self.hoist(self.idx(e['i']), 'i')
            return b.ext(('vec', i), e['t'])
        if k == 'OpCall':
            op = e['op']
            if op == '[]' :
                b = self.path(e['args'][0]) or self.tmp_path(e['args'][0])
                rt = g.rt(unq(e['args'][0]['t']))
                if rt.startswith('CVec<'):
                    i = self.hoist(self.idx(e['args'][1]), 'i')
                    return b.ext(('vec', i), e['t'])
                if rt.startswith('CMap<'):
                    kt = unq(e['args'][0]['t'])['args'][0]
                    i = self.hoist(self.val(e['args'][1], want=kt), 'k')
                    # operator[] inserts a default value when the key is missing
                    vt = unq(e['args'][0]['t'])['args'][1]
                    self.write(b, 'map_touch(%s, %s, %s)' % (self.read(b), i, g.dflt(vt)))
                    return b.ext(('map', i), e['t'])
                return None
            if op in ('*', '->'):
                return self.deref(e['args'][0])
            if op in ('=', '+=', '-=', '<<', '>>', '++', '--') :
                fn = e.get('fn') or {}
                if op in ('++', '--') and len(e['args']) == 2: return None
                t0 = unq(e['args'][0]['t'])
                if op in ('<<', '>>') and not (g.rt_safe(t0) == 'CStream' or (fn.get('repo'))): return None
                self.effect(e)
                return self.path_noeffect(e['args'][0])
            return None
        if k in ('Assign', 'CompoundAssign'):
            self.effect(e)
            return self.path_noeffect(e['l'])
        if k == 'MCall':
            fn = e.get('fn')
            nm = e.get('name')
            if fn and fn['repo']:
                f = g.m.by_fid(fn)
                if f is not None:
                    rk = g.retkind(f)
                    if rk == ('self',):
                        p = self.objpath(e)
                        self.effect(e)
                        return p
                    if isinstance(rk, tuple) and rk[0] == 'param':
                        self.effect(e)
                        return self.path_noeffect(e['args'][rk[1]])
                    if self.is_getter(f):
                        return self.inline_getter(f, e)
                return None
            ot = unq(e['objt'])
            if ot['k'] == 'ptr': ot = ot['t']
            rt = g.rt_safe(ot)
            if rt is None: return None
            if rt.startswith('CVec<'):
                b = self.objpath(e)
                if nm == 'at':
                    i = self.hoist(self.idx(e['args'][0]), 'i')
                    return b.ext(('vec', i), e['t'])
                if nm == 'front':
                    return b.ext(('vec', '0u64'), e['t'])
                if nm == 'back':
                    i = self.hoist('vec_last_ix(%s)' % self.read(b), 'i')
                    return b.ext(('vec', i), e['t'])
            if rt.startswith('CMap<') and nm == 'at':
                b = self.objpath(e)
                kt = ot['args'][0]
                i = self.hoist(self.val(e['args'][0], want=kt), 'k')
                return b.ext(('map', i), e['t'])
            if rt.startswith('SPtr<') and nm == 'get':
                return self.deref(e['obj'])
            if rt == 'CStream' and nm in ('ignore', 'get', 'flush', 'clear', 'seekg'):
                if unq(e['t'])['k'] == 'rec':
                    self.effect(e)
                    return self.objpath(e)
            return None
        if k == 'Call':
            fn = e.get('fn') or {}
            nm = strip_targs(fn.get('name', ''))
            if nm == 'std::get':
                i = fn['targs'][0].get('v')
                if i is None: self.bad('get by type')
                b = self.path(e['args'][0]) or self.tmp_path(e['args'][0])
                return self.pairext(b, i, e['t'])
            if nm in ('std::move', 'std::forward', 'std::as_const'):
                return self.path(e['args'][0])
            if nm == 'std::getline':
                self.effect(e)
                return self.path_noeffect(e['args'][0])
            if fn.get('repo'):
                f = g.m.by_fid(fn)
                if f is not None:
                    rk = g.retkind(f)
                    if isinstance(rk, tuple) and rk[0] == 'param':
                        self.effect(e)
                        return self.path_noeffect(e['args'][rk[1]])
            return None
        return None

    def path_noeffect(self, e):
        """the path of e once its effects have been emitted"""
        if e['k'] in ('OpCall', 'MCall', 'Call', 'Assign', 'CompoundAssign') and not (e['k'] == 'OpCall' and e['op'] in ('[]', '*', '->')):
            k = e['k']
            if k == 'OpCall' and e['op'] in ('<<', '>>', '=', '+=', '++'): return self.path_noeffect(e['args'][0])
            if k in ('Assign', 'CompoundAssign'): return self.path_noeffect(e['l'])
            if k == 'Call' and strip_targs((e.get('fn') or {}).get('name', '')) == 'std::getline': return self.path_noeffect(e['args'][0])
            if k == 'Call' and strip_targs((e.get('fn') or {}).get('name', '')) == 'std::get': return self.path(e)
            if k in ('Call', 'MCall') and (e.get('fn') or {}).get('repo'):
                f = self.g.m.by_fid(e['fn'])
                rk = self.g.retkind(f)
                if isinstance(rk, tuple) and rk[0] == 'param': return self.path_noeffect(e['args'][rk[1]])
        return self.path(e)

    def tmp_path(self, e):
        t = self.fresh('o')
        self.emit('let mut %s = %s;' % (t, self.val(e)))
        return Path(t, (), unq(e['t']))
    def path_or_tmp(self, e):
        p = self.path(e)
        return p if p is not None else self.tmp_path(e)

    def deref(self, e):
        """the object a pointer-like expression points to"""
        g = self.g
        if e['k'] == 'This': return self.thispath
        t = unq(e['t'])
        if t['k'] == 'ptr':
            if e['k'] == 'Unary' and e['op'] == '&': return self.path(e['e'])
            if e['k'] == 'OpCall' and e['op'] == '->': return self.deref(e['args'][0])
            return self.path(e) or self.tmp_path(e)
        rt = g.rt_safe(t)
        if e['k'] == 'OpCall' and e['op'] == '->':
            return self.deref(e['args'][0])
        if self.is_iter(t):
            ie, cont = self.iterval(e)
            if cont is None: self.bad('iterator without known container')
            kind, cp = cont
            if kind == 'vec':
                return cp.ext(('vec', self.hoist(ie, 'i')), None)
            if kind == 'rvec':
                i = self.hoist('vec_rix(%s, %s)' % (self.read(cp), ie), 'i')
                return cp.ext(('vec', i), None)
            if kind == 'map':
                kk = self.hoist('mapit_key(%s)' % ie, 'k')
                return cp.ext(('mapelem', kk), None)
            if kind == 'set':
                return Path(self.hoist('mapit_key(%s)' % ie, 'k'), (), None, True)
        if t['k'] == 'rec' and strip_targs(t['n']) == 'std::reverse_iterator':
            ie, cont = self.iterval(e)
            i = self.hoist('vec_rix(%s, %s)' % (self.read(cont[1]), ie), 'i')
            return cont[1].ext(('vec', i), None)
        if rt and rt.startswith('SPtr<'):
            b = self.path(e) or self.tmp_path(e)
            return b.ext(('sptr',), None)
        if rt and g.opts.get('handles') and rt in g.opts['handles']:
            return self.path(e) or self.tmp_path(e)
        # __shared_ptr_access base: the pointer object itself was passed
        return None

    def iterval(self, e):
        """(Rust value, (kind, container path)) of an iterator expression"""
        g = self.g
        k = e['k']
        if k == 'Ref' and e['id'] in self.env:
            b = self.env[e['id']]
            if b[0] == 'iter': return b[1], b[3]
            return None, None
        if k == 'Construct' and len(e['args']) == 1: return self.iterval(e['args'][0])
        if k == 'Cast': return self.iterval(e['e'])
        if k == 'Member':
            key = strip_targs(e.get('cls', '')) + '::' + e['name']
            if key in g.itersrc:
                p = self.path(e)
                base = Path(p.root, p.projs[:-1])
                cp = base
                for x in g.itersrc[key].split('.'): cp = cp.ext(('field', x), None)
                return self.read(p), ('vec', cp)
            return None, None
        if k == 'MCall':
            nm = e['name']
            ot = unq(e['objt'])
            if ot['k'] == 'ptr': ot = ot['t']
            rt = g.rt_safe(ot) or ''
            if nm in ('begin', 'cbegin') and rt.startswith('CVec<'): return '0u64', ('vec', self.objpath(e))
            if nm in ('end', 'cend') and rt.startswith('CVec<'):
                p = self.objpath(e); return 'vec_len(%s)' % self.read(p), ('vec', p)
            if nm in ('rbegin', 'crbegin') and rt.startswith('CVec<'): return '0u64', ('rvec', self.objpath(e))
            if nm in ('rend', 'crend') and rt.startswith('CVec<'):
                p = self.objpath(e); return 'vec_len(%s)' % self.read(p), ('rvec', p)
            if nm == 'find' and rt.startswith('CMap<'):
                p = self.objpath(e)
                return 'map_find(%s, %s)' % (self.read(p), self.val(e['args'][0], want=ot['args'][0])), ('map', p)
            if nm == 'find' and rt.startswith('CSet<'):
                p = self.objpath(e)
                return 'set_find(%s, %s)' % (self.read(p), self.val(e['args'][0], want=ot['args'][0])), ('set', p)
            if nm in ('end', 'cend') and (rt.startswith('CMap<') or rt.startswith('CSet<')):
                p = self.objpath(e)
                return 'mapit_end()', ('map' if rt.startswith('CMap') else 'set', p)
            if nm in ('begin', 'cbegin') and (rt.startswith('CMap<') or rt.startswith('CSet<')):
                p = self.objpath(e)
                return ('map_begin(%s)' if rt.startswith('CMap') else 'set_begin(%s)') % self.read(p), ('map' if rt.startswith('CMap') else 'set', p)
        if k == 'OpCall' and e['op'] in ('+', '-') and len(e['args']) == 2:
            ie, cont = self.iterval(e['args'][0])
            if ie is None: return None, None
            if cont[0] not in ('vec', 'rvec'): self.bad('iterator arithmetic')
            a = self.val(e['args'][1])
            return '%s(%s, %s)' % ('it_add' if e['op'] == '+' else 'it_sub', ie, a), cont
        return None, None

    def objpath(self, e):
        o = e['obj']
        if e.get('arrow') and o['k'] != 'This':
            p = self.deref(o)
            if p is not None: return p
        if o['k'] == 'This': return self.thispath
        p = self.path(o)
        if p is None: p = self.tmp_path(o)
        t = unq(o['t'])
        return p

    # ------------------------------------------------------------ inlining
    def is_getter(self, f):
        b = f['body']
        if not b or b['k'] != 'Block' or len(b['b']) != 1 or b['b'][0]['k'] != 'Return': return False
        if f['params'] : return False
        if f['fid'] in self.g.byfid: return False
        e = b['b'][0]['e']
        while e['k'] == 'Member' and not e.get('staticvar'): 
            e = e['base']
            if e['k'] == 'This': return True
        return False
    def inline_getter(self, f, e):
        p = self.objpath(e)
        return self.with_this(p, f, lambda: self.path(f['body']['b'][0]['e']))
    def with_this(self, p, f, fn):
        old = self.thispath
        self.thispath = p
        try: return fn()
        finally: self.thispath = old

    def inline_call(self, f, args, thisp, want=None):
        """inline a repo function without contract; returns value code or None"""
        g = self.g
        if f['fid'] in [x['fid'] for x in self.inline_stack]: self.bad('recursive function without contract: ' + f['name'])
        if len(self.inline_stack) > 6: self.bad('inlining too deep')
        g.inlined.add(strip_targs(f['name']))
        oldthis = self.thispath
        newenv = {}
        body = self.ret_normal(f['body'])
        for p, a in zip(f['params'], args):
            t = p['t']
            if t['k'] == 'ref' or g.out_param(t):
                ap = self.path(a)
                if ap is not None:
                    ap = Path(ap.root, self.snapshot(ap.projs), ap.t, ap.const or (t['k'] == 'ref' and bool(t['t'].get('const'))))
                    newenv[p['id']] = ('alias', ap); continue
            n = self.fresh((p['name'] or 'arg') + '_p')
            self.emit('let mut %s = %s;' % (n, self.val(a, want=t)))
            newenv[p['id']] = ('var', n, unq(t))
        rk = g.retkind(f)
        var = None
        if rk == 'val':
            var = self.fresh('ret_' + rname(f['name']))
            self.emit('let mut %s: %s = arb::<%s>();' % (var, g.rt(f['ret']), g.rt(f['ret'])))
        fr = {'fid': f['fid'], 'var': var, 't': f['ret'], 'loops': len(self.loopvars)}
        self.inline_stack.append(fr)
        self.env.update(newenv)
        self.thispath = thisp
        self.emit(';{')
        self.ind += 1
        if f.get('ctor'): self.bad('inlined constructor')
        for x in newenv: self.env.setdefault(x, newenv[x])
        self.block(body)
        for x in newenv: self.env.pop(x, None)
        self.ind -= 1
        self.emit('}')
        self.thispath = oldthis
        self.inline_stack.pop()
        return var

    def ret_normal(self, s):
        """turn early returns into nested ifs, so that a return is always last"""
        def has_ret(x):
            if isinstance(x, list): return any(has_ret(y) for y in x)
            if not isinstance(x, dict): return False
            if x.get('k') == 'Lambda': return False
            if x.get('k') == 'Return': return True
            return any(has_ret(y) for y in x.values())
        def norm(stmts):
            out = []
            for i, x in enumerate(stmts):
                rest = stmts[i+1:]
                if x['k'] == 'Return':
                    out.append(x); return out
                if x['k'] == 'Block' and has_ret(x):
                    return out + norm(x['b'] + rest)
                if x['k'] == 'If' and has_ret(x):
                    a = norm(as_list(x['a']) + ([] if always(x['a']) else rest))
                    b = norm(as_list(x['b']) + ([] if x['b'] and always(x['b']) else rest))
                    y = dict(x); y['a'] = {'k': 'Block', 'b': a, 'line': x['line']}; y['b'] = {'k': 'Block', 'b': b, 'line': x['line']}
                    out.append(y); return out
                if has_ret(x): self.bad('return inside a loop of an inlined function')
                out.append(x)
            return out
        def as_list(x):
            if x is None: return []
            return x['b'] if x['k'] == 'Block' else [x]
        def always(x): return self.terminated(x)
        return {'k': 'Block', 'b': norm(as_list(s)), 'line': s.get('line')}

    # ------------------------------------------------------------- effects
    def effect(self, e):
        """evaluate e for its effects"""
        g = self.g
        k = e['k']
        self.line = e.get('line', getattr(self, 'line', None))
        if k == 'Cast' and e.get('ck') == 'ToVoid': return self.effect(e['e'])
        if k in ('Int', 'Bool', 'Char', 'Ref', 'This', 'Str', 'Null', 'Float'): return
        if k == 'Member': return
        if k == 'Throw':
            self.emit('cpp_throw(); // line %s' % e.get('line'))
            self.emit('return arb::<%s>();' % self.R)
            return
        if k == 'Assign':
            p = self.path_lhs(e['l'])
            v = self.val(e['r'], want=e['l']['t'])
            v = self.hoist(v)
            self.write(p, v)
            return
        if k == 'CompoundAssign':
            p = self.path_lhs(e['l'])
            lt, ct, cr = e['l']['t'], e['ct'], e['cr']
            r = self.val(e['r'])
            a = self.conv(self.read(p), lt, ct)
            v = self.binop(e['op'][:-1], a, r, ct, e['r']['t'])
            self.write(p, self.conv(v, cr, lt))
            return
        if k == 'Unary' and e['op'] in ('++', '--'):
            p = self.path_lhs(e['e'])
            t = unq(e['e']['t'])
            r = g.rt(t)
            if r not in INTS.values(): self.bad('++ on ' + r)
            self.write(p, '%s_%s(%s, 1%s)' % (r, 'add' if e['op'] == '++' else 'sub', self.read(p), r))
            return
        if k == 'Delete':
            self.effect(e['e']); return
        if k == 'Cond':
            c = self.val(e['c'])
            self.emit('if %s {' % c); self.ind += 1; self.effect(e['a']); self.ind -= 1
            self.emit('} else {'); self.ind += 1; self.effect(e['b']); self.ind -= 1; self.emit('}')
            return
        if k == 'Binary' and e['op'] == ',':
            self.effect(e['l']); self.effect(e['r']); return
        if k == 'Binary' and e['op'] in ('&&', '||'):
            c = self.val(e['l'])
            if e['op'] == '||': c = '!(%s)' % c
            self.emit('if %s {' % c); self.ind += 1; self.effect(e['r']); self.ind -= 1; self.emit('}')
            return
        if k == 'OpCall' and e['op'] == '<<' and g.opts.get('console') and self.stream_base(e) == 'std::cout':
            self.console(e); return
        if k == 'OpCall' and e['op'] in ('<<',) and self.is_diag(e):
            g.dropped.add('diagnostic output to cerr/cout')
            return
        if k == 'OpCall' and e['op'] in ('++', '--'):
            it, cont = None, None
            p = self.path(e['args'][0])
            t = unq(e['args'][0]['t'])
            if self.is_iter(t) and g.rt(t) == 'u64':
                self.write(p, 'it_inc(%s)' % self.read(p) if e['op'] == '++' else 'it_sub(%s, 1i64)' % self.read(p)); return
            key = (e['op'], g.rt_safe(t))
            if key in g.opts.get('ops', {}): g.opts['ops'][key](self, e); return
            self.bad('operator++ on ' + str(t.get('n')))
        v = self.val(e, effect_only=True)
        if v and v not in ('()',) and not re.fullmatch(r'[\w.]+', v):
            self.emit('let _ = %s;' % v)

    def stream_base(self, e):
        while e['k'] == 'OpCall' and e['op'] == '<<': e = e['args'][0]
        return e.get('q') if e['k'] == 'Ref' else None

    def console(self, e):
        """output to std::cout, kept in the ghost parameter named by the option console"""
        g = self.g
        nm, rec = next(iter(g.opts['console'].items()))
        if nm not in [n for n, t in g.opts.get('ghostparams', {}).get(strip_targs(self.f['name']), ())]: self.bad('output to cout outside of the functions that keep it')
        parts = []
        while e['k'] == 'OpCall' and e['op'] == '<<':
            parts.insert(0, e['args'][1]); e = e['args'][0]
        p = Path(nm, (), None)
        for x in parts:
            if x['k'] == 'Ref' and x.get('dk') == 'func':
                if x['name'] == 'endl': self.write(p, 'out_char(%s, 10u8)' % self.read(p)); continue
                if x['name'] == 'flush': continue
                self.bad('manipulator ' + x['name'])
            r = g.rt(unq(x['t']))
            v = self.hoist(self.val(x))
            if r == 'u8': self.write(p, 'out_char(%s, %s)' % (self.read(p), v))
            elif r == 'CVec<u8>': self.write(p, 'out_text(%s, %s)' % (self.read(p), v))
            elif r in ('u32', 'u64', 'i32', 'i64'): self.write(p, 'out_num(%s, (%s) as i128)' % (self.read(p), v))
            elif r in rec: self.write(p, '%s(%s, %s)' % (rec[r], self.read(p), v))
            else: self.bad('output of ' + r)

    def is_diag(self, e):
        x = e
        while x['k'] == 'OpCall' and x['op'] == '<<': x = x['args'][0]
        return x['k'] == 'Ref' and x.get('q') in ('std::cerr', 'std::cout', 'std::clog')

    def path_lhs(self, e):
        p = self.path(e)
        if p is None: self.bad('assignment target ' + e['k'])
        if e['k'] == 'Ref' and e['id'] in self.frozen: self.bad('write to a copied map element')
        return p

    # --------------------------------------------------------------- values
    def idx(self, e):
        v = self.val(e)
        r = self.g.rt(unq(e['t']))
        if r == 'u64': return v
        return self.conv(v, e['t'], {'k': 'int', 'n': 'u64'})

    def conv(self, v, a, b):
        """integral / floating conversion"""
        g = self.g
        ra, rb = g.rt(unq(a)), g.rt(unq(b))
        if ra == rb: return v
        if ra == 'CDbl' and rb == 'CDbl': return v
        if ra == 'bool' and rb in INTS.values(): return 'bool_to_%s(%s)' % (rb, v)
        if rb == 'bool' and ra in INTS.values(): return '(%s != 0%s)' % (v, ra)
        if ra in INTS.values() and rb in INTS.values():
            m = re.fullmatch(r'(\d+)' + ra, v)
            if m:
                val = int(m.group(1)); bits = int(rb[1:])
                if (rb[0] == 'u' and val < 2**bits) or (rb[0] == 'i' and val < 2**(bits-1)): return '%d%s' % (val, rb)
            wa, wb = int(ra[1:]), int(rb[1:])
            if ra[0] == rb[0] and wb >= wa or (ra[0] == 'u' and rb[0] == 'i' and wb > wa): return '(%s as %s)' % (v, rb)
            return '%s_to_%s(%s)' % (ra, rb, v)
        if ra in INTS.values() and rb == 'CDbl': return 'dbl_of_%s(%s)' % (ra, v)
        if ra == 'CDbl' and rb in INTS.values(): return 'dbl_to_%s(%s)' % (rb, v)
        if ra == rb: return v
        if ra == 'CVec<u8>' and rb == 'CVec<u8>': return v
        if rb == 'bool' and ra == 'CStream': return 'stream_ok(%s)' % v
        key = ra + '->' + rb
        if key in g.opts.get('convs', {}): return g.opts['convs'][key] % v
        self.bad('conversion %s to %s' % (ra, rb))

    def binop(self, op, a, b, t, rt_=None):
        g = self.g
        r = g.rt(unq(t))
        if op in ('<', '>', '<=', '>=', '==', '!='):
            if r == 'CDbl': return 'dbl_%s(%s, %s)' % ({'<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge', '==': 'eq', '!=': 'ne'}[op], a, b)
            if r in INTS.values(): return '(%s %s %s)' % (a, op, b)
            self.bad('comparison of ' + r)
        names = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'rem', '&': 'and', '|': 'or', '^': 'xor', '<<': 'shl', '>>': 'shr'}
        if op in names and (r in INTS.values() or r == 'CDbl'):
            p = 'dbl' if r == 'CDbl' else r
            if op in ('<<', '>>'): b = self.conv(b, rt_, {'k': 'int', 'n': 'u32'}) if g.rt(unq(rt_)) != 'u32' else b
            return '%s_%s(%s, %s)' % (p, names[op], a, b)
        self.bad('operator %s on %s' % (op, r))

    def val(self, e, want=None, effect_only=False):
        k = e['k']
        self.line = e.get('line', getattr(self, 'line', None))
        m = getattr(self, 'v_' + k, None)
        if not m: self.bad('expression ' + k + (' ' + e.get('what', '') if k == 'Unsupported' else ''))
        if k in ('Call', 'MCall', 'OpCall'):
            return m(e, effect_only)
        if k in ('InitList', 'Construct', 'ValueInit', 'StdInit'):
            return m(e, want)
        return m(e)

    def v_Int(self, e):
        r = self.g.rt(e['t'])
        v = int(e['v'])
        return '%d%s' % (v, r) if v >= 0 else '(%d%s)' % (v, r)
    def v_Bool(self, e): return 'true' if e['v'] else 'false'
    def v_Char(self, e): return '%du8' % (e['v'] & 255) if self.g.rt(e['t']) == 'u8' else '%d%s' % (e['v'], self.g.rt(e['t']))
    def v_Float(self, e):
        if e['v'] == int(e['v']): return 'dbl_of_i64(%d)' % int(e['v'])
        self.bad('floating literal')
    def v_Str(self, e):
        b = e['v'].encode('latin1', 'replace')
        return self.strlit(b)
    def strlit(self, b):
        if not b: return 'vec_new::<u8>()'
        return 'str_lit(Ghost(Seq::<u8>::empty()%s))' % ''.join('.push(%du8)' % c for c in b)
    def v_Null(self, e): self.bad('null pointer')
    def v_This(self, e): return self.read(self.thispath)
    def v_Ref(self, e):
        if e.get('dk') == 'enumc': return '%di32' % e['v']
        p = self.path(e)
        if p is not None: return self.read(p)
        if e.get('dk') == 'global':
            nm = strip_targs(e['q'])
            v = self.g.m.vars.get(nm)
            if v and v.get('init') and v['t'].get('const') : return self.val(v['init'], want=v['t'])
            if v and v.get('init') and self.g.rt_safe(v['t']) in ('CVec<u8>',) : return self.val(v['init'], want=v['t'])
        m = re.fullmatch(r'(?:mpl_::bool_<|boost::mpl::bool_<|std::integral_constant<bool, )(true|false|1|0)>::value', e.get('q', ''))
        if m: return 'true' if m.group(1) in ('true', '1') else 'false'
        self.bad('reference to ' + e.get('q', e.get('name', '?')))
    def v_Member(self, e):
        p = self.path(e)
        if p is None:
            if e.get('staticvar'):
                v = self.g.m.vars.get(strip_targs(e['staticvar']))
                if v and v.get('init') and v['t'].get('const'): return self.val(v['init'], want=v['t'])
            self.bad('member ' + e['name'])
        return self.read(p)
    def v_Index(self, e): return self.read(self.path(e))
    def v_Cast(self, e):
        ck = e['ck']
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'IntegralToBoolean', 'FloatingCast', 'BooleanToSignedIntegral'):
            return self.conv(self.val(e['e']), e['from'], e['t'])
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase', 'NoOp', 'BitCast'): return self.val(e['e'])
        if ck == 'ToVoid': self.effect(e['e']); return '()'
        if ck == 'PointerToBoolean': self.bad('pointer to bool')
        if ck == 'NullToPointer': return '()'
        self.bad('cast ' + ck)
    def v_Unary(self, e):
        op = e['op']
        g = self.g
        if op == '!': return '!(%s)' % self.val(e['e'])
        if op == '-':
            r = g.rt(e['t'])
            if e['e']['k'] == 'Int': return '(-%s)' % self.val(e['e'])
            return ('dbl' if r == 'CDbl' else r) + '_neg(%s)' % self.val(e['e'])
        if op == '+': return self.val(e['e'])
        if op == '~': return '%s_not(%s)' % (g.rt(e['t']), self.val(e['e']))
        if op in ('*', '&'):
            p = self.path(e)
            if p is None: self.bad('operand of ' + op)
            return self.read(p)
        if op in ('++', '--'):
            p = self.path_lhs(e['e'])
            if e['post']:
                t = self.fresh()
                self.emit('let %s = %s;' % (t, self.read(p)))
                self.effect(e)
                return t
            self.effect(e)
            return self.read(self.path_noeffect(e['e']))
        self.bad('unary ' + op)
    def v_Binary(self, e):
        op = e['op']
        if op in ('&&', '||'):
            a = self.val(e['l'])
            b, v = self.capture(lambda: self.val(e['r']))
            if not b: return '(%s %s %s)' % (a, op, v)
            return '(%s %s {\n%s\n%s })' % (a, op, '\n'.join(b), v)
        if op == ',':
            self.effect(e['l']); return self.val(e['r'])
        if op == '+' and e['t']['k'] == 'ptr': return self.read(self.path(e))
        a = self.val(e['l'])
        nb = len(self.buf)
        b, vb = self.capture(lambda: self.val(e['r']))
        if b:
            a = self.hoist(a)
            self.buf += b
        return self.binop(op, a, vb, e['l']['t'], e['r']['t'])
    def v_Assign(self, e):
        self.effect(e); return self.read(self.path_noeffect(e['l']))
    v_CompoundAssign = v_Assign
    def v_Cond(self, e):
        c = self.val(e['c'])
        ba, a = self.capture(lambda: self.val(e['a'], want=e['t']))
        bb, b = self.capture(lambda: self.val(e['b'], want=e['t']))
        return '(if %s {%s %s } else {%s %s })' % (c, ('\n' + '\n'.join(ba) + '\n') if ba else '', a, ('\n' + '\n'.join(bb) + '\n') if bb else '', b)
    def v_Throw(self, e):
        self.effect(e); return 'arb()'
    def v_Lambda(self, e): self.bad('lambda value')
    def v_New(self, e):
        t = e['alloc']
        return 'arb::<%s>()' % self.g.rt(t)
    def v_Delete(self, e): return '()'
    def v_ValueInit(self, e, want=None): return self.g.dflt(e['t'])
    def v_StdInit(self, e, want=None):
        x = e['e']
        if x['k'] == 'InitList':
            return self.listval([self.val(a) for a in x['args']], None)
        self.bad('initializer list')
    def listval(self, vs, elt):
        s = 'vec_new()'
        for v in vs: s = 'vec_push(%s, %s)' % (s, v)
        return s
    def v_InitList(self, e, want=None):
        t = unq(e['t'])
        if t['k'] == 'arr': return self.listval([self.val(a) for a in e['args']], None)
        if t['k'] == 'rec' and strip_targs(t['n']) in self.g.m.records:
            rec = self.g.m.records[strip_targs(t['n'])]
            if rec['bases']: self.bad('aggregate with bases')
            fs = [self.g.fld(f['name']) for f in rec['fields']]
            return '%s { %s }' % (self.g.rt(t), ', '.join('%s: %s' % (f, self.val(a)) for f, a in zip(fs, e['args'])))
        if len(e['args']) == 1 and t['k'] in ('int', 'float'): return self.val(e['args'][0])
        if not e['args']: return self.g.dflt(t)
        self.bad('initializer list of ' + str(t.get('n')))

    def v_Construct(self, e, want=None):
        g = self.g
        t = unq(e['t'])
        args = e['args']
        if t['k'] == 'lambda':
            self.bad('lambda copy')
        fn = e['fn']
        cls = strip_targs(t['n']) if t['k'] == 'rec' else ''
        r = g.rt(t)
        if e['copy']: 
            return self.val(args[0], want=t)
        if e['move']:
            a = args[0]
            # moved-from containers are left empty by their move constructor
            if a['k'] == 'Call' and strip_targs((a.get('fn') or {}).get('name', '')) == 'std::move':
                p = self.path(a['args'][0])
                if p is not None and not p.const and p.projs + (p.root,) and (r.startswith('CVec<') or r.startswith('CMap<') or r.startswith('CSet<')):
                    v = self.fresh('mv')
                    self.emit('let %s = %s;' % (v, self.read(p)))
                    self.write(p, g.dflt(t))
                    return v
            return self.val(a, want=t)
        if t['k'] == 'flint' and not args: return 'arb::<%s>()' % r
        full = cls + ('<%s>' % strip_targs(t['args'][0]['n']) if t.get('args') and t['args'][0].get('k') == 'rec' else '')
        if full in g.opts.get('ctors', {}): return g.opts['ctors'][full](self, e)
        if cls in g.opts.get('ctors', {}):
            return g.opts['ctors'][cls](self, e)
        if fn['repo'] and cls in g.m.records:
            f = g.m.by_fid(fn)
            if f is None:
                # implicit default constructor of a record of the repository
                if e['default']:
                    return self.record_default(cls)
                self.bad('constructor ' + fn['fid'])
            c = g.byfid.get(f['fid'])
            if c is None:
                return self.inline_ctor(f, args)
            return self.call_contract(f, c, args, None) + '.this'
        c0 = cls.replace('std::__cxx11::', 'std::')
        if c0 in ('std::vector', 'std::deque'):
            elt = r[5:-1]
            if not args: return 'vec_new::<%s>()' % elt
            a0 = args[0]
            if a0['k'] == 'StdInit' : return self.val(a0)
            t0 = unq(a0['t'])
            if t0['k'] == 'int' and (len(args) == 1 or self.is_alloc(args[1])):
                return 'vec_fill::<%s>(%s, %s)' % (elt, self.val(a0), g.dflt(t['args'][0]))
            if t0['k'] == 'int' and unq(args[1]['t'])['k'] != 'rec':
                return 'vec_fill::<%s>(%s, %s)' % (elt, self.val(a0), self.val(args[1]))
            i0, c0_ = self.iterval(a0)
            if i0 is not None and c0_[0] == 'set':
                i1, c1_ = self.iterval(args[1])
                if i0.startswith('set_begin(') and i1 == 'mapit_end()' and c1_[1].root == c0_[1].root and c1_[1].projs == c0_[1].projs:
                    return 'set_elems(%s)' % self.read(c0_[1])
            if i0 == '0u64' and c0_[0] == 'vec':
                i1, c1_ = self.iterval(args[1])
                if i1 == 'vec_len(%s)' % self.read(c0_[1]): return self.read(c0_[1])
            self.bad('vector constructor')
        if c0 in ('std::map', 'std::set'):
            if not args or all(self.is_cmp(a) for a in args): return g.dflt(t)
            if args[0]['k'] == 'StdInit' and not args[0]['e'].get('args'): return g.dflt(t)
            if args[0]['k'] == 'StdInit' and c0 == 'std::set':
                return 'set_from(%s)' % self.val(args[0])
            self.bad('map constructor')
        if c0 in ('std::tuple', 'std::pair'):
            tt = t['args']
            if not args: return g.dflt(t)
            if len(args) == len(tt):
                vs = []
                for a, x in zip(args, tt):
                    v = self.hoist(self.val(a, want=x)) if len(args) > 1 else self.val(a, want=x)
                    vs.append(self.maybe_conv(v, a['t'], x))
                return '(' + ', '.join(vs) + (',' if len(vs) == 1 else '') + ')'
            if len(args) == 1:
                src = unq(args[0]['t'])
                if src['k'] == 'rec' and len(src['args']) == len(tt):
                    if [g.rt(x) for x in src['args']] == [g.rt(x) for x in tt]: return self.val(args[0])
                    v = self.hoist(self.val(args[0]))
                    return '(' + ', '.join(self.maybe_conv('%s.%d' % (v, i), x, y) for i, (x, y) in enumerate(zip(src['args'], tt))) + ')'
            self.bad('tuple constructor')
        if c0 == 'std::basic_string':
            if not args: return 'vec_new::<u8>()'
            a0 = args[0]
            if g.rt(unq(a0['t'])) == 'CVec<u8>' : return self.val(a0)
            self.bad('string constructor')
        if c0 == 'std::allocator' : return '()'
        if c0 == 'std::shared_ptr':
            if not args or args[0]['k'] == 'Null': return 'sptr_null::<%s>()' % r[5:-1]
            if g.rt(unq(args[0]['t'])) == r: return self.val(args[0])
            self.bad('shared_ptr constructor')
        if c0 in ('std::basic_stringstream', 'std::basic_istringstream', 'std::basic_ostringstream'):
            if not args or unq(args[0]['t'])['k'] == 'enum': return 'stream_new()'
            return 'stream_of(%s)' % self.val(args[0])
        if cls in g.m.records and e['default']: return self.record_default(cls)
        if c0 == '__gnu_cxx::__normal_iterator' and not args: return 'arb::<u64>()'
        if c0 in ('std::_Rb_tree_const_iterator', '__gnu_cxx::__normal_iterator'):
            ie, cont = self.iterval(args[0])
            if ie is not None: return ie
            return self.val(args[0])
        self.bad('constructor of ' + cls)

    def is_alloc(self, a): return self.g.rt_is(a, 'std::allocator') or a['k'] == 'Construct' and 'allocator' in str(a['t'].get('n'))
    def is_cmp(self, a): return a['t'].get('n', '').startswith('std::less') or 'allocator' in a['t'].get('n', '')

    def maybe_conv(self, v, a, b):
        g = self.g
        ra, rb = g.rt(unq(a)), g.rt(unq(b))
        if ra == rb: return v
        return self.conv(v, a, b)

    def record_default(self, cls):
        g = self.g
        f = [x for x in g.m.functions.values() if x.get('ctor') and strip_targs(x['cls']) == cls and not x['params']]
        if f:
            c = g.byfid.get(f[0]['fid'])
            if c: return self.call_contract(f[0], c, [], None) + '.this'
            return self.inline_ctor(f[0], [])
        rec = g.m.records[cls]
        parts = []
        rn = g.record(cls)
        for fl in rec['fields']:
            if cls + '::' + fl['name'] in g.opts.get('dropfields', ()): continue
            if fl.get('init'): v = self.val(fl['init'], want=fl['t'])
            else:
                try: v = g.dflt(fl['t']) if fl['t']['k'] == 'rec' else 'arb::<%s>()' % g.rt(fl['t'])
                except Unsupported:
                    v = 'arb::<%s>()' % g.rt(fl['t'])
            parts.append('%s: %s' % (g.fld(fl['name']), v))
        return '%s { %s }' % (rn, ', '.join(parts))

    def inline_ctor(self, f, args):
        g = self.g
        if f['fid'] in [x['fid'] for x in self.inline_stack]: self.bad('recursive constructor')
        T = g.rt(f['clst'])
        var = self.fresh('obj')
        g.inlined.add(strip_targs(f['name']))
        newenv = {}
        for p, a in zip(f['params'], args):
            t = p['t']
            if t['k'] == 'ref':
                ap = self.path(a)
                if ap is not None:
                    if t['t'].get('const'): ap = Path(ap.root, ap.projs, ap.t, True)
                    newenv[p['id']] = ('alias', ap); continue
            n = self.fresh((p['name'] or 'arg') + '_p')
            self.emit('let mut %s = %s;' % (n, self.val(a, want=t)))
            newenv[p['id']] = ('var', n, unq(t))
        self.inline_stack.append({'fid': f['fid'], 'var': None, 't': None, 'loops': len(self.loopvars)})
        self.env.update(newenv)
        oldthis = self.thispath
        self.thispath = Path(var, (), f['clst'])
        deleg = [i for i in f['inits'] if i['kind'] == 'delegating']
        if deleg:
            self.emit('let mut %s = %s;' % (var, self.val(deleg[0]['e'])))
        else:
            self.emit('let mut %s: %s = arb::<%s>();' % (var, T, T))
            for x, y in g.opts.get('initfields', {}).get(strip_targs(f['cls']), ()): self.emit('%s.%s = %s;' % (var, x, y))
            for i in f['inits']:
                if i['kind'] == 'base': continue
                if (strip_targs(f['cls']) + '::' + i['name']) in g.opts.get('dropfields', ()): continue
                if i['e']['k'] == 'Unsupported' : self.bad('initialiser')
                if i['ft']['k'] == 'flint' and not i['written']: continue
                self.emit('%s.%s = %s;' % (var, g.fld(i['name']), self.val(i['e'], want=i['ft'])))
        self.block(self.ret_normal(f['body']))
        self.thispath = oldthis
        self.inline_stack.pop()
        return var

    # ---------------------------------------------------------------- calls
    def call_contract(self, f, c, args, thisp, objv=None):
        """call a repo function that has a contract; returns the temp holding the result struct"""
        g = self.g
        has_this, thismut, ps = g.sig(f)
        R = g.result_struct(f, c)
        vals, outs = [], []
        if has_this: vals.append(self.hoist(self.read(thisp), 'o') if thisp.projs else self.read(thisp))
        for (n, t, o), a in zip(ps, args):
            if o:
                p = self.path(a)
                if p is None:
                    if t['k'] == 'ref' and t.get('rv'):
                        vals.append(self.val(a, want=t)); continue
                    self.bad('no path for output argument of ' + c.rust)
                # effects of computing the path are out now
                outs.append((n, p, t))
                vals.append(self.read(p))
            else:
                v = self.val(a, want=t)
                vals.append(self.hoist(v) )
        ghosts = [n for n, t in g.opts.get('ghostparams', {}).get(strip_targs(f['name']), ())]
        vals += ghosts
        r = self.fresh('r')
        self.calls[c.rust] = self.calls.get(c.rust, 0) + 1
        self.hints('before %s' % c.rust)
        self.hints('before %s %d' % (c.rust, self.calls[c.rust]))
        self.emit('let %s = %s(%s);' % (r, c.rust, ', '.join(vals)))
        if thismut: self.write(thisp, '%s.this' % r)
        for n, p, t in outs:
            if t['k'] == 'ref' and t.get('rv') and p.const: continue
            self.write(p, '%s.%s' % (r, n))
        for n in ghosts: self.write(Path(n, (), None), '%s.%s' % (r, n))
        for pl in ('after %s' % c.rust, 'after %s %d' % (c.rust, self.calls[c.rust])):
            for q, tx in self.c.proofs:
                if q == pl:
                    for l in tx.splitlines(): self.emit(l.replace('$r', r))
        return r

    def repo_call(self, e, fn, args, thisp):
        g = self.g
        f = g.m.by_fid(fn)
        if f is None:
            # declared in the repo, body not in this translation unit
            c = g.ext_by_name(fn)
            if c is None: self.bad('no body and no contract for ' + fn['name'])
            f = g.fake(fn)
        c = g.byfid.get(f['fid']) or g.ext_by_name(fn)
        if c is not None:
            r = self.call_contract(f, c, args, thisp)
            rk = g.retkind(f)
            if rk == 'val': return '%s.ret' % r
            return '()'
        v = self.inline_call(f, args, thisp)
        return v or '()'

    def v_Call(self, e, effect_only=False):
        g = self.g
        fn = e.get('fn')
        if not fn:
            self.bad('indirect call')
        nm = strip_targs(fn['name'])
        args = e['args']
        if nm in g.opts.get('lib', {}) and not (fn['repo'] and g.byfid.get(fn.get('fid'))): return g.opts['lib'][nm](self, e)
        if fn['repo']: return self.repo_call(e, fn, args, None)
        if nm == 'std::get': return self.read(self.path(e))
        if nm in ('std::move', 'std::forward', 'std::as_const'): return self.val(args[0])
        if nm == 'std::make_tuple':
            tt = e['t']['args']
            vs = [self.maybe_conv(self.hoist(self.val(a, want=x)), a['t'], x) for a, x in zip(args, tt)]
            return '(' + ', '.join(vs) + (',' if len(vs) == 1 else '') + ')'
        if nm == 'std::make_pair':
            tt = e['t']['args']
            return '(' + ', '.join(self.maybe_conv(self.hoist(self.val(a, want=x)), a['t'], x) for a, x in zip(args, tt)) + ')'
        if nm == 'std::make_shared':
            T = unq(e['t'])['args'][0]
            hook = g.opts.get('make_shared', {}).get(strip_targs(T.get('n', '')))
            if hook: return hook(self, e)
            rT = g.rt(T)
            if rT.startswith('CVec<'):
                if not args: v = g.dflt(T)
                elif len(args) == 1 and unq(args[0]['t'])['k'] == 'int': v = 'vec_fill::<%s>(%s, %s)' % (rT[5:-1], self.maybe_conv(self.val(args[0]), args[0]['t'], {'k': 'int', 'n': 'u64'}), g.dflt(T['args'][0]))
                else: self.bad('make_shared')
            else:
                cls = strip_targs(T['n'])
                cands = [x for x in g.m.functions.values() if x.get('ctor') and strip_targs(x['cls']) == cls and len(x['params']) == len(args)]
                if len(cands) != 1: self.bad('make_shared<%s>' % cls)
                c = g.byfid.get(cands[0]['fid'])
                # arguments are forwarded, then converted to the types of the parameters
                args = [x if p['t']['k'] == 'ref' or unq(x['t'])['k'] != 'int' or unq(p['t'])['k'] != 'int' or g.rt(unq(p['t'])) == g.rt(unq(x['t'])) else {'k': 'Cast', 'ck': 'IntegralCast', 'from': unq(x['t']), 't': unq(p['t']), 'e': x, 'line': x.get('line'), 'explicit': False} for p, x in zip(cands[0]['params'], args)]
                v = (self.call_contract(cands[0], c, args, None) + '.this') if c else self.inline_ctor(cands[0], args)
            return 'sptr_new(%s)' % v
        if nm in ('std::pow', 'pow'):
            a, b = args
            ra, rb = g.rt(unq(a['t'])), g.rt(unq(b['t']))
            def as_d(x, r):
                v = self.val(x)
                return v if r == 'CDbl' else self.conv(v, x['t'], {'k': 'float'})
            return 'dbl_pow(%s, %s)' % (as_d(a, ra), as_d(b, rb))
        if nm == 'std::sort' and len(args) == 2:
            i0, c0 = self.iterval(args[0]) if args[0]['k'] != 'Ref' else (None, None)
            i1, c1 = self.iterval(args[1])
            if i0 == '0u64' and i1 and i1.startswith('vec_len(') and c0[1].root == c1[1].root and c0[1].projs == c1[1].projs and c0[0] == c1[0]:
                p = c0[1]
                self.write(p, '%s(%s)' % ('vec_sort' if c0[0] == 'vec' else 'vec_sort_desc', self.read(p)))
                return '()'
            self.bad('sort')
        if nm in ('std::min', 'std::max') and len(args) == 2:
            r = g.rt(unq(e['t']))
            return '%s_%s(%s, %s)' % (r, nm[5:], self.val(args[0]), self.val(args[1]))
        if nm == 'std::swap' and len(args) == 2:
            p, q = self.path_lhs(args[0]), self.path_lhs(args[1])
            t = self.fresh('sw')
            self.emit('let %s = %s;' % (t, self.read(p)))
            self.write(p, self.read(q))
            self.write(q, t)
            return '()'
        if nm in ('std::getline',):
            p = self.path_lhs(args[0]); q = self.path_lhs(args[1])
            d = self.val(args[2]) if len(args) > 2 else '10u8'
            r = self.hoist('stream_getline(%s, %s, %s)' % (self.read(p), self.read(q), d), 'r')
            self.write(p, r + '.0'); self.write(q, r + '.1')
            return '()'
        if nm in ('std::tie',): self.bad('tie as value')
        if nm in ('std::find', 'std::count'): self.bad(nm)
        # a library function with a contract in the prelude
        if nm in g.libsigs():
            return self.lib_call(e, nm, fn, args)
        if nm == 'std::char_traits::eof': return '-1i32'
        self.bad('library function ' + nm)

    def lib_call(self, e, nm, fn, args):
        g = self.g
        g.used_lib.add(nm)
        vals, outs = [], []
        for t, a in zip(fn['params'], args):
            if g.out_param(t):
                p = self.path(a)
                if p is None: self.bad('output argument of ' + nm)
                outs.append(p); vals.append(self.read(p))
            else:
                if t['k'] == 'ptr' and a['k'] in ('Cast', 'Null') and (a['k'] == 'Null' or a.get('ck') == 'NullToPointer'): continue
                vals.append(self.hoist(self.val(a, want=t)))
        ret = e['t']['k'] != 'void'
        rn = rname(nm)
        n = len(outs) + (1 if ret else 0)
        call = '%s(%s)' % (rn, ', '.join(vals))
        if not outs: return call if ret else (self.emit(call + ';') or '()')
        r = self.hoist(call, 'r')
        if n == 1:
            self.write(outs[0], r); return '()'
        for i, p in enumerate(outs): self.write(p, '%s.%d' % (r, i + (1 if ret else 0)))
        return '%s.0' % r if ret else '()'

    def v_MCall(self, e, effect_only=False):
        g = self.g
        fn = e.get('fn')
        nm = e.get('name')
        if not fn: self.bad('member call')
        ot = unq(e['objt'])
        if ot['k'] == 'ptr': ot = ot['t']
        on = strip_targs(ot.get('n', '')) if ot['k'] == 'rec' else ''
        hook = g.opts.get('methods', {}).get((on, nm)) or g.opts.get('methods', {}).get((strip_targs(fn.get('cls', '')), nm))
        if hook: return hook(self, e)
        if fn['repo']:
            f = g.m.by_fid(fn)
            if f is not None and f['fid'] not in g.byfid and self.is_getter(f):
                return self.read(self.inline_getter(f, e))
            thisp = None
            if not fn.get('static'):
                thisp = self.objpath(e)
                if thisp is None: self.bad('object of ' + nm)
            v = self.repo_call(e, fn, e['args'], thisp)
            if v == '()' and not effect_only and f is not None and g.retkind(f) == ('self',):
                return self.read(thisp)
            return v
        if on in ('std::mutex', 'std::unique_lock') and nm in ('lock', 'unlock', 'owns_lock'):
            if on == 'std::unique_lock':
                b = self.env.get(e['obj'].get('id')) if e['obj']['k'] == 'Ref' else None
                if not b or b[0] != 'lock': self.bad('lock object')
                if nm == 'owns_lock': return b[1]
                p = b[2]
                self.emit('%s = %s;' % (b[1], 'true' if nm == 'lock' else 'false'))
            else: p = self.objpath(e)
            self.write(p, 'mutex_%s(%s)' % (nm, self.read(p)))
            if nm == 'lock' and on == 'std::mutex': self.interfere(e['obj'], p)
            elif nm == 'lock' and len(b) > 3: self.interfere(b[3], p)
            return '()'
        if on == 'std::condition_variable' and nm in ('notify_one', 'notify_all', 'wait'):
            if nm == 'wait' and len(e['args']) != 1: self.bad('wait with a predicate')
            o = e['obj']
            if o['k'] != 'Member': self.bad('condition variable')
            h = g.opts.get('conds', {}).get(strip_targs(o.get('cls', '')) + '::' + o['name'])
            if not h: self.bad('condition variable')
            q = self.path(o)
            b = Path(q.root, q.projs[:-1], None)
            if nm == 'wait':
                self.calls['wait'] = self.calls.get('wait', 0) + 1
                self.hints('before wait')
                self.write(b, '%s(%s)' % (h[1], self.read(b)))
                self.hints('after wait')
            else: self.write(b, '%s(%s)' % (h[0], self.read(b)))
            return '()'
        rt = g.rt_safe(ot)
        a = e['args']
        if nm.startswith('operator bool') or nm == 'operator bool':
            if rt.startswith('SPtr<'): return '!sptr_is_null(%s)' % self.val(e['obj'])
            if rt == 'CStream':
                p = self.path(e['obj'])
                return 'stream_ok(%s)' % (self.read(p) if p is not None else self.val(e['obj']))
        if rt is None: self.bad('method %s of %s' % (nm, on))
        if rt.startswith('CVec<'):
            elt = rt[5:-1]
            if nm in ('size', 'length'): return 'vec_len(%s)' % self.read(self.objpath(e))
            if nm == 'empty': return '(vec_len(%s) == 0u64)' % self.read(self.objpath(e))
            if nm in ('push_back', 'push_front'):
                p = self.objpath(e)
                v = self.hoist(self.val(a[0], want=ot['args'][0] if ot.get('args') else None))
                self.write(p, '%s(%s, %s)' % ('vec_push' if nm == 'push_back' else 'vec_push_front', self.read(p), v)); return '()'
            if nm == 'emplace_back':
                p = self.objpath(e)
                T = ot['args'][0]
                v = self.hoist(self.emplace(T, a, fn))
                self.write(p, 'vec_push(%s, %s)' % (self.read(p), v)); return '()'
            if nm in ('pop_back', 'pop_front'):
                p = self.objpath(e)
                self.write(p, 'vec_%s(%s)' % (nm, self.read(p))); return '()'
            if nm == 'clear':
                p = self.objpath(e); self.write(p, 'vec_new::<%s>()' % elt); return '()'
            if nm in ('reserve', 'shrink_to_fit'):
                for x in a: self.effect(x)
                return '()'
            if nm in ('at', 'front', 'back'): return self.read(self.path(e))
            if nm in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend'): return self.iterval(e)[0]
            if nm in ('c_str', 'str') : return self.read(self.objpath(e))
            if nm == 'swap':
                p, q = self.objpath(e), self.path_lhs(a[0])
                t = self.fresh('sw'); self.emit('let %s = %s;' % (t, self.read(p)))
                self.write(p, self.read(q)); self.write(q, t); return '()'
            if nm == 'assign' and len(a) == 2 and unq(a[0]['t'])['k'] == 'int':
                p = self.objpath(e)
                self.write(p, 'vec_fill::<%s>(%s, %s)' % (elt, self.val(a[0]), self.val(a[1]))); return '()'
            if nm == 'resize' and len(a) == 1:
                p = self.objpath(e)
                self.write(p, 'vec_resize(%s, %s, %s)' % (self.read(p), self.val(a[0]), g.dflt(ot['args'][0]))); return '()'
        if rt.startswith('CMap<') or rt.startswith('CSet<'):
            M = 'map' if rt.startswith('CMap<') else 'set'
            kt = ot['args'][0]
            if nm == 'count': return 'bool_to_u64(%s_has(%s, %s))' % (M, self.read(self.objpath(e)), self.val(a[0], want=kt))
            if nm == 'empty': return '%s_is_empty(%s)' % (M, self.read(self.objpath(e)))
            if nm == 'size': return '%s_size(%s)' % (M, self.read(self.objpath(e)))
            if nm == 'clear':
                p = self.objpath(e); self.write(p, g.dflt(ot)); return '()'
            if nm == 'at': return self.read(self.path(e))
            if nm in ('find', 'end', 'begin', 'cend', 'cbegin'): return self.iterval(e)[0]
            if nm == 'insert' and M == 'set' and len(a) == 1:
                p = self.objpath(e)
                v = self.hoist(self.val(a[0], want=kt))
                self.write(p, 'set_insert(%s, %s)' % (self.read(p), v)); return '()'
            if nm == 'emplace' and M == 'map' and len(a) == 2:
                p = self.objpath(e)
                kx = self.hoist(self.maybe_conv(self.val(a[0], want=kt), a[0]['t'], kt)); v = self.hoist(self.maybe_conv(self.val(a[1], want=ot['args'][1]), a[1]['t'], ot['args'][1]))
                self.write(p, 'map_touch(%s, %s, %s)' % (self.read(p), kx, v)); return '()'
            if nm == 'erase' and len(a) == 1:
                p = self.objpath(e)
                ie, cont = self.iterval(a[0])
                if ie is not None: self.write(p, '%s_remove_it(%s, %s)' % (M, self.read(p), ie))
                else: self.write(p, '%s_remove(%s, %s)' % (M, self.read(p), self.val(a[0], want=kt)))
                return '()'
        if rt == 'CStream':
            p = self.objpath(e)
            if nm == 'peek':
                r = self.hoist('stream_peek(%s)' % self.read(p), 'r')
                self.write(p, r + '.1'); return r + '.0'
            if nm == 'ignore':
                n_ = self.val(a[0]) if a else '1i64'
                self.write(p, 'stream_ignore(%s, %s)' % (self.read(p), n_)); return '()'
            if nm == 'eof': return 'stream_eof(%s)' % self.read(p)
            if nm in ('good',): return 'stream_good(%s)' % self.read(p)
            if nm == 'fail': return '!stream_ok(%s)' % self.read(p)
            if nm == 'operator!': return '!stream_ok(%s)' % self.read(p)
            if nm == 'str': return 'stream_str(%s)' % self.read(p)
            if nm == 'close' : self.write(p, 'stream_close(%s)' % self.read(p)); return '()'
            if nm == 'flush': return '()'
        if rt.startswith('SPtr<'):
            if nm == 'reset' and not a:
                p = self.objpath(e); self.write(p, 'sptr_null::<%s>()' % rt[5:-1]); return '()'
            if nm == 'get': return self.read(self.path(e))
        self.bad('method %s of %s' % (nm, rt))

    def emplace(self, T, a, fn):
        g = self.g
        if T['k'] == 'rec' and strip_targs(T['n']) in ('std::tuple', 'std::pair'):
            vs = [self.maybe_conv(self.hoist(self.val(x, want=y)), x['t'], y) for x, y in zip(a, T['args'])]
            return '(' + ', '.join(vs) + ')'
        if T['k'] == 'rec' and strip_targs(T['n']) in g.m.records:
            cls = strip_targs(T['n'])
            if len(a) == 1 and g.rt_safe(unq(a[0]['t'])) == g.rt(T): return self.val(a[0])
            cands = [x for x in g.m.functions.values() if x.get('ctor') and strip_targs(x['cls']) == cls and len(x['params']) == len(a)]
            ok = []
            for f in cands:
                try:
                    if all(g.rt(unq(p['t'])) == g.rt(unq(x['t'])) or (g.rt(unq(p['t'])) in INTS.values() and g.rt(unq(x['t'])) in INTS.values()) for p, x in zip(f['params'], a)): ok.append(f)
                except Unsupported: pass
            if len(ok) != 1: self.bad('emplace of ' + cls)
            f = ok[0]
            c = g.byfid.get(f['fid'])
            # conversions of arguments
            aa = []
            for p, x in zip(f['params'], a):
                if g.rt(unq(p['t'])) != g.rt(unq(x['t'])): x = {'k': 'Cast', 'ck': 'IntegralCast', 'from': unq(x['t']), 't': unq(p['t']), 'e': x, 'line': x.get('line'), 'explicit': False}
                aa.append(x)
            return (self.call_contract(f, c, aa, None) + '.this') if c else self.inline_ctor(f, aa)
        if len(a) == 1: return self.maybe_conv(self.val(a[0], want=T), a[0]['t'], T)
        if not a: return g.dflt(T)
        self.bad('emplace')

    def v_OpCall(self, e, effect_only=False):
        g = self.g
        op = e['op']
        a = e['args']
        fn = e.get('fn') or {}
        t0 = unq(a[0]['t'])
        if op == '()':
            f0 = a[0]
            if f0['k'] == 'Ref' and f0['id'] in self.env and self.env[f0['id']][0] == 'lambda':
                lam = self.env[f0['id']][1]
                fd = lam['fdef']
                for cp in lam['captures']:
                    if not cp.get('this') and not cp.get('ref'):
                        pass   # captured by value: the captured variable must not change afterwards (assumed; see DESIGN)
                return self.inline_lambda(fd, a[1:])
            if fn.get('repo'):
                p = self.path_or_tmp(a[0])
                return self.repo_call(e, fn, a[1:], p)
            h = g.opts.get('callop', {}).get(strip_targs(t0.get('n', '')))
            if h: return h(self, e)
            self.bad('call of function object')
        if fn.get('repo'):
            if fn.get('method'):
                p = self.path_or_tmp(a[0])
                return self.repo_call(e, fn, a[1:], p)
            v = self.repo_call(e, fn, a, None)
            if v == '()' and not effect_only:
                p = self.path_noeffect(a[0])
                if p: return self.read(p)
            return v
        if op == '=':
            if a[0]['k'] == 'Call' and strip_targs(a[0]['fn']['name']) == 'std::tie':
                src = self.hoist(self.val(a[1]))
                st = unq(a[1]['t'])['args']
                for i, x in enumerate(a[0]['args']):
                    p = self.path_lhs(x)
                    self.write(p, self.maybe_conv('%s.%d' % (src, i), st[i], x['t']))
                return '()'
            # assignment of library types (containers, tuples, strings, shared_ptr)
            lt = unq(a[0]['t'])
            key = ('=', g.rt_safe(lt))
            if key in g.opts.get('ops', {}): return g.opts['ops'][key](self, e)
            if self.is_iter(lt):
                ie, cont = self.iterval(a[1])
                p = self.path(a[0])
                if a[0]['k'] == 'Ref' and a[0]['id'] in self.env:
                    b = self.env[a[0]['id']]
                    self.env[a[0]['id']] = ('iter', b[1], b[2], cont)
                self.write(p, ie); return '()'
            rhs = a[1]
            v = None
            if rhs['k'] == 'Call' and strip_targs((rhs.get('fn') or {}).get('name', '')) == 'std::move':
                v = self.val(rhs)
                t_ = self.fresh('mv')
                self.emit('let %s = %s;' % (t_, v))
                v = t_
                sp = self.path(rhs['args'][0])
                if sp is not None and not sp.const and fn.get('params') and fn['params'][0].get('rv'):
                    rt = g.rt(unq(rhs['args'][0]['t']))
                    self.write(sp, g.dflt(unq(rhs['args'][0]['t'])) if rt.startswith(('CVec<', 'CMap<', 'CSet<')) else 'arb::<%s>()' % rt)
            else:
                v = self.val(rhs, want=lt)
                v = self.hoist(self.maybe_conv_tuple(v, rhs['t'], lt) if 't' in rhs else v)
            p = self.path_lhs(a[0])
            self.write(p, v)
            return '()' if effect_only else self.read(p)
        if op in ('[]', '*', '->'):
            key = (op, g.rt_safe(t0))
            if key in g.opts.get('ops', {}): return g.opts['ops'][key](self, e)
            p = self.path(e)
            if p is None: self.bad('operator' + op)
            return self.read(p)
        if op in ('==', '!=') and (self.is_iter(t0)):
            x, cx = self.iterval(a[0]); y, cy = self.iterval(a[1])
            if x is None or y is None: self.bad('iterator comparison')
            if cx[0] in ('map', 'set'):
                r = 'mapit_eq(%s, %s)' % (x, y)
            else:
                r = '(%s == %s)' % (x, y)
            return r if op == '==' else '!(%s)' % r
        r0 = g.rt_safe(t0)
        if op in ('<<', '>>') and r0 == 'CStream':
            return self.stream_op(e, op, a)
        if op in ('==', '!='):
            r1 = g.rt_safe(unq(a[1]['t']))
            if r0 == r1 and r0 and r0.startswith('CVec<'):
                r = 'vec_eq(%s, %s)' % (self.hoist(self.val(a[0])), self.hoist(self.val(a[1])))
                return r if op == '==' else '!(%s)' % r
            if r0 == r1 and r0 and (r0.startswith('(') or r0.startswith('CSet<') or r0.startswith('CMap<')):
                r = 'val_eq(%s, %s)' % (self.hoist(self.val(a[0])), self.hoist(self.val(a[1])))
                return r if op == '==' else '!(%s)' % r
        if op == '<' and r0 and r0.startswith('CVec<'):
            return 'vec_lt_%s(%s, %s)' % (r0[5:-1], self.hoist(self.val(a[0])), self.hoist(self.val(a[1])))
        if op == '+' and r0 == 'CVec<u8>':
            return 'str_cat(%s, %s)' % (self.hoist(self.val(a[0])), self.hoist(self.val(a[1])))
        if op == '+=' and r0 == 'CVec<u8>':
            p = self.path_lhs(a[0])
            v = self.hoist(self.val(a[1]))
            if g.rt(unq(a[1]['t'])) == 'u8': self.write(p, 'vec_push(%s, %s)' % (self.read(p), v))
            else: self.write(p, 'str_cat(%s, %s)' % (self.read(p), v))
            return '()'
        if op == '!' and r0 == 'CStream': return '!stream_ok(%s)' % self.val(a[0])
        if op in ('-', '+') :
            ie, cont = self.iterval(e)
            if ie is not None: return ie
        key = (op, r0)
        if key in g.opts.get('ops', {}): return g.opts['ops'][key](self, e)
        self.bad('operator %s on %s' % (op, r0 or t0.get('n')))

    def maybe_conv_tuple(self, v, a, b):
        g = self.g
        a, b = unq(a), unq(b)
        ra, rb = g.rt(a), g.rt(b)
        if ra == rb: return v
        if a['k'] == 'rec' and b['k'] == 'rec' and len(a['args']) == len(b['args']) and ra.startswith('('):
            v = self.hoist(v)
            return '(' + ', '.join(self.maybe_conv_tuple('%s.%d' % (v, i), x, y) for i, (x, y) in enumerate(zip(a['args'], b['args']))) + ')'
        return self.conv(v, a, b)

    def stream_op(self, e, op, a):
        g = self.g
        # the stream operand may itself be a chain
        p = self.path(a[0])
        if p is None: p = self.tmp_path(a[0])
        x = a[1]
        xt = unq(x['t'])
        if op == '<<':
            if x['k'] == 'Ref' and x.get('dk') == 'func':
                if x['name'] in ('endl',): self.write(p, 'stream_put_char(%s, 10u8)' % self.read(p)); return '()'
                if x['name'] in ('flush',): return '()'
                self.bad('manipulator ' + x['name'])
            r = g.rt(xt)
            v = self.hoist(self.val(x))
            if r == 'u8': self.write(p, 'stream_put_char(%s, %s)' % (self.read(p), v))
            elif r == 'CVec<u8>': self.write(p, 'stream_put_str(%s, %s)' % (self.read(p), v))
            elif r in ('u32', 'u64', 'i32', 'i64', 'bool'): self.write(p, 'stream_put_%s(%s, %s)' % (r, self.read(p), v))
            else:
                key = ('<<', r)
                if key in g.opts.get('ops', {}): return g.opts['ops'][key](self, e)
                self.bad('output of ' + r)
            return '()'
        q = self.path_lhs(x)
        r = g.rt(xt)
        if r in ('i32', 'u32', 'u64', 'i64'):
            t = self.hoist('stream_get_%s(%s, %s)' % (r, self.read(p), self.read(q)), 'r')
            self.write(p, t + '.0'); self.write(q, t + '.1')
            return '()'
        self.bad('input of ' + r)

    def inline_lambda(self, fd, args):
        return self.inline_call(fd, args, self.thispath)

def _rt_safe(self, t):
    try: return self.rt(t)
    except Unsupported: return None
Gen.rt_safe = _rt_safe
Gen.rt_is = lambda self, a, n: strip_targs(str(a['t'].get('n', ''))) == n
def _ext_by_name(self, fn):
    nm = rname(fn['name'])
    c = self.contracts.get(nm)
    if c is not None and c.external and (not c.match or c.match[0] == strip_targs(fn['name'])): return c
    if self.m.by_fid(fn): return None
    for c in self.contracts.values():
        if c.external and c.match and c.match[0] == strip_targs(fn['name']) and (c.match[1] is None or c.match[1] == len(fn['params'])) and (len(c.match) < 3 or not c.match[2] or re.search(c.match[2], fn['fid'])): return c
    return None
Gen.ext_by_name = _ext_by_name
def _fake(self, fn):
    f = {'name': fn['name'], 'fid': fn['fid'], 'ret': fn['ret'], 'params': [{'name': 'p%d' % i, 'id': -1 - i, 't': t} for i, t in enumerate(fn['params'])], 'body': {'k': 'Block', 'b': []}}
    for k in ('cls', 'static', 'const'): f[k] = fn.get(k)
    if fn.get('method'):
        f['clst'] = self.m.records[strip_targs(fn['cls'])]['t'] if strip_targs(fn['cls']) in self.m.records else {'k': 'rec', 'n': fn['cls'], 'args': []}
    else: f.pop('cls')
    return f
Gen.fake = _fake
def _libsigs(self):
    return self.opts.get('libnames', set())
Gen.libsigs = _libsigs
