"""Mechanical translation of extracted C++ functions (lcvx JSON) to Verus.

The translation is syntax directed.  Contracts, loop invariants and ghost proof
text come from a spec file and are attached to functions by qualified name and
template arguments and to loops by their position in the loop nest.  Anything
the translator does not understand raises Unsupported (reported as "could not be
brought under the verifier", never as a proof)."""
import re

class Unsupported(Exception): pass

KW = {'as','break','const','continue','crate','else','enum','extern','false','fn','for','if','impl','in','let','loop','match','mod','move','mut','pub','ref','return','self','static','struct','super','trait','true','type','unsafe','use','where','while','dyn','box','final','override','priv','typeof','virtual','yield','try','int','nat','open','closed','spec','proof','exec','ghost','tracked','requires','ensures','invariant','decreases','assert','assume','forall','exists','choose','by','via','when','recommends','is','has','old'}

def rn(n):
    return n + '_v' if n in KW else n

def nocast(e):
    while e['x'] == 'cast': e = e['e']
    return e
def unref(t):
    return t['to'] if t['k'] == 'ref' else t

def scal(t):
    """rust scalar type name, or None"""
    k = t['k']
    if k == 'int': return ('i' if t['s'] else 'u') + str(t['w'])
    if k == 'enum': return ('i' if t.get('s') else 'u') + str(t.get('w', 32))
    if k == 'bool': return 'bool'
    if k == 'float': return 'F%d' % t['w']
    if k == 'rec' and t['name'] in VALUES: return VALUES[t['name']]
    if k == 'ptr' and t['to'].get('k') == 'rec' and t['to']['name'] + ' *' in VALUES: return VALUES[t['to']['name'] + ' *']
    return None

# classes without identity (handles, immutable descriptions), copied like scalars
VALUES = {}

def rng(ty):
    w = int(ty[1:])
    return (-(1 << (w-1)), (1 << (w-1)) - 1) if ty[0] == 'i' else (0, (1 << w) - 1)

def desugar(s):
    """switch statements whose groups all end in break/return become if chains"""
    if isinstance(s, list): return [desugar(z) for z in s]
    if not isinstance(s, dict): return s
    s = {k: desugar(v) for k, v in s.items()}
    if s.get('s') != 'switch' or s['b']['s'] != 'block' or not pure(s['c']): return s
    groups = []
    def put(z):
        if z['s'] in ('case', 'default'):
            if not groups or groups[-1][1]: groups.append(([], []))
            groups[-1][0].append(z['c'] if z['s'] == 'case' else None)
            put(z['b'])
        elif not groups: return
        elif z['s'] == 'block' and len(groups[-1][1]) == 0: groups[-1][1].extend(z['b'] or [{'s': 'null'}])
        else: groups[-1][1].append(z)
    for z in s['b']['b']: put(z)
    def nbreak(z, top=True):
        if isinstance(z, list): return sum(nbreak(y) for y in z)
        if not isinstance(z, dict): return 0
        if z.get('s') == 'break': return 1
        if z.get('s') in ('for', 'while', 'do', 'range'): return 0
        return sum(nbreak(v) for v in z.values())
    out = None; default = None
    for i, (labels, body) in enumerate(groups):
        if not body or body[-1].get('s') not in ('break', 'ret'):
            if i != len(groups) - 1: return s
        body = body[:-1] if body and body[-1].get('s') == 'break' else body
        if nbreak(body): return s
        groups[i] = (labels, body)
        if None in labels: default = {'s': 'block', 'b': body, 'ln': s.get('ln')}
    out = default
    for labels, body in reversed(groups):
        if None in labels: continue
        c = None
        for l in labels:
            q = {'x': 'bin', 'op': '==', 'l': s['c'], 'r': dict(l, t=s['c']['t']), 't': {'k': 'bool'}, 'ln': s.get('ln')}
            c = q if c is None else {'x': 'bin', 'op': '||', 'l': c, 'r': q, 't': {'k': 'bool'}, 'ln': s.get('ln')}
        out = {'s': 'if', 'c': c, 'a': {'s': 'block', 'b': body}, 'b': out, 'ln': s.get('ln')}
    return out or {'s': 'null'}

def pure(e):
    if isinstance(e, list): return all(pure(z) for z in e)
    if not isinstance(e, dict): return True
    if e.get('x') in ('asg', 'call', 'mcall', 'opcall', 'new', 'delete', 'lambda', 'unk', 'ctor'): return False
    if e.get('x') == 'un' and e['op'] in ('++', '--'): return False
    return all(pure(v) for v in e.values())

PRIM = set()

class Tr:
    def __init__(self, data, spec, repo='/repo/'):
        self.spec = spec
        VALUES.clear(); VALUES.update(spec.values)
        self.fns = {}
        self.byid = {}
        for f in data['functions']:
            f['body'] = desugar(f['body'])
            self.byid[f['id']] = f
            self.fns.setdefault(self.key(f), []).append(f)
        self.recs = {r['name']: r for r in data['records']}
        self.helpers = {}       # name -> text (generated arithmetic helpers)
        self.recdefs = {}       # record name -> rust text
        self.out = []
        self.assumed = []
        self.stats = {}
        self.names = {}
        self.specnames = set(re.findall(r'\bfn (\w+)', spec.prelude)) | {v['as'] for v in spec.fns.values()} | {v.split()[0].split('+')[0].rstrip('<>') for v in spec.externs.values()}

    # ---- naming ---------------------------------------------------------
    @staticmethod
    def key(f):
        q = f['q']
        if f.get('rec') and not f.get('static_ns'):
            q = f['rec'] + '::' + f['n']
        ta = f.get('targs') or []
        return q + ('<' + ','.join(ta) + '>' if ta else '') + '/' + str(len(f['params']))

    def speckey(self, f):
        k = self.key(f)
        if k in self.spec.fns: return k
        # overloads: allow a type signature suffix
        k2 = k + ':' + f['fty']
        if k2 in self.spec.fns: return k2
        return None

    # ---- helpers --------------------------------------------------------
    def helper(self, name, text):
        self.helpers.setdefault(name, text)
        return name

    def cast_int(self, e, a, b):
        if a == b: return e
        if a == 'bool':
            return '(if %s { 1%s } else { 0%s })' % (e, b, b)
        if b == 'bool':
            return '(%s != 0)' % e
        la, ha = rng(a); lb, hb = rng(b)
        if lb <= la and ha <= hb: return '(%s as %s)' % (e, b)
        n = 'cv_%s_%s' % (a, b)
        m = str(1 << int(b[1:]))
        w = 'wraps' if b[0] == 'i' else 'wrapu'
        lo = max(la, lb); hi = min(ha, hb)
        self.helper(n, '#[verifier::external_body] pub fn %s(x: %s) -> (r: %s) ensures r == %s(x as int, %s), r == x as %s, (%d <= x && x <= %d) ==> r == x { unimplemented!() }' % (n, a, b, w, m, b, lo, hi))
        return '%s(%s)' % (n, e)

    def cast_scalar(self, e, a, b):
        if a == b: return e
        if a[0] == 'F' or b[0] == 'F':
            n = 'cv_%s_%s' % (a, b)
            if b == 'F64' and a[0] != 'F':
                if a == 'bool': raise Unsupported('bool to double')
                # every 32-bit integer is a double; wider ones are not converted here
                if int(a[1:]) > 32: raise Unsupported('64-bit integer to double')
                self.helper(n, '#[verifier::external_body] pub fn %s(x: %s) -> (r: F64) ensures r.v@ == (x as int) as real%s { unimplemented!() }' % (n, a, ', whole(r.v@)' if self.spec.rounded else ''))
                return '%s(%s)' % (n, e)
            if a == 'F64':
                if b in ('i32', 'i64'):
                    # truncation; values out of range are undefined behaviour
                    h = 1 << (int(b[1:]) - 1)
                    self.helper(n, '#[verifier::external_body] pub fn %s(x: F64) -> (r: %s) requires 0real - %dreal <= x.v@ && x.v@ < %dreal ensures r as int == (if x.v@ >= 0real { x.v@.floor() } else { -((0real - x.v@).floor()) }) { unimplemented!() }' % (n, b, h, h))
                    return '%s(%s)' % (n, e)
                if b != 'F32': raise Unsupported('double to ' + b)
                self.helper(n, '#[verifier::external_body] pub fn %s(x: F64) -> (r: F32) ensures r == f32_of_real(x.v@) { unimplemented!() }' % n)
                return '%s(%s)' % (n, e)
            if b == 'F64':
                self.helper(n, '#[verifier::external_body] pub fn %s(x: F32) -> (r: F64) ensures r.v@ == real_of_f32(x)%s { unimplemented!() }' % (n, ', single(r.v@)' if self.spec.rounded else ''))
                return '%s(%s)' % (n, e)
            self.helper(n, 'pub uninterp spec fn s%s(x: %s) -> %s;\n#[verifier::external_body] pub fn %s(x: %s) -> (r: %s) ensures r == s%s(x) { unimplemented!() }' % (n, a, b, n, a, b, n))
            return '%s(%s)' % (n, e)
        return self.cast_int(e, a, b)

    def rust_type(self, t, what=''):
        t = unref(t)
        s = scal(t)
        if s: return s
        if t['k'] == 'arr': return 'Mem<%s>' % self.rust_type(t['of'])
        if t['k'] == 'ptr':
            to = t['to']
            if to['k'] == 'rec': return self.rust_type(to)
            if to['k'] == 'ptr': return 'CPtr<PtrVal>' if True else ''
            return 'CPtr<%s>' % self.rust_type(to)
        if t['k'] == 'rec':
            n = t['name']
            m = re.match(r'std::array<(.*), (\d+)>$', n)
            if m: return 'Mem<%s>' % self.elem_type(m.group(1))
            m = re.match(r'std::vector<(.*)>$', n)
            if m: return 'Mem<%s>' % self.elem_type(m.group(1))
            if n in self.spec.vectors: return 'Mem<%s>' % self.spec.vectors[n]
            m = re.match(r'std::unique_ptr<(.*)>$', n)
            if m: return self.rec_type(m.group(1))
            return self.rec_type(n)
        raise Unsupported('type %s %s' % (t, what))

    CT = {'float': 'F32', 'double': 'F64', 'int': 'i32', 'signed char': 'i8', 'unsigned char': 'u8', 'short': 'i16', 'unsigned short': 'u16',
          'unsigned int': 'u32', 'long': 'i64', 'unsigned long': 'u64', 'bool': 'bool'}
    def elem_type(self, s):
        s = re.sub(r',\s*std::allocator<.*', '', s).strip()
        if s in self.CT: return self.CT[s]
        if s in VALUES: return VALUES[s]
        if s.endswith('*'): return 'PtrVal'
        if s in self.recs: return self.rec_type(s)
        raise Unsupported('element type ' + s)

    def rec_type(self, n):
        if n in self.spec.recs: return self.spec.recs[n]
        rname = self.spec.rnames.get(n) or re.sub(r'[^A-Za-z0-9]+', '_', n.split('::')[-1] if '<' not in n else n.replace('compute_engine::core::', '')).strip('_')
        if n in self.recdefs: return rname
        r = self.recs.get(n)
        if r is None: raise Unsupported('record ' + n)
        self.recdefs[n] = ''
        fl = []
        for f in self.all_fields(n):
            fl.append('pub %s: %s' % (rn(f['n']), self.rust_type(f['t'])))
            if n + '.' + f['n'] in self.spec.nullable: fl.append('pub %s__set: bool' % rn(f['n']))
        fl += ['pub ' + x for x in self.spec.ghostfields.get(n, [])]
        self.recdefs[n] = 'pub struct %s { %s }' % (rname, ', '.join(fl))
        return rname

    def all_fields(self, n):
        r = self.recs[n]
        fl = []
        for b in r['bases']: fl += self.all_fields(b)
        return fl + r['fields']

    # ---- functions ------------------------------------------------------
    def function(self, f, sp):
        self.cur = f
        self.sp = sp
        self.env = {}
        self.loopc = [0]
        self.lines = []
        self.ind = 1
        self.tmp = 0
        self.usednames = set()
        self.loops_seen = []
        self.nobl = 0
        self.retslot = None
        self.scope_names = []
        self.memty = {}
        params = []
        self.mutself = False
        ctor = self.is_ctor(f)
        if ctor and sp.get('nothis'):   # the fields are part of the world the function is given
            if any(i['e'].get('x') != 'ctor' or i['e']['a'] for i in f.get('inits', [])): raise Unsupported('member initialisers of ' + f['rec'])
            ctor = False
        self.thisowned = ctor
        if ctor: pass
        elif f.get('rec') and not f.get('static'):
            self.thisrec = f['rec']
            if sp.get('nothis'): pass
            elif f.get('const'): params.append('this: &%s' % self.rec_type(f['rec']))
            else: params.append('this: &mut %s' % self.rec_type(f['rec'])); self.mutself = True
        pre = []
        for i, p in enumerate(f['params']):
            n = p['n'] or ('unused%d' % i)
            ps, _ = self.bind_param(p, n)
            params += ps
        params += sp.get('ghost', [])
        ret = f['ret']
        rt = None
        if ret['k'] != 'void':
            rt = self.rec_type(sp['retrec']) if sp.get('retrec') else self.rust_type(ret)
        if ctor: rt = self.rec_type(f['rec'])
        self.rt = rt
        name = sp['as']
        self.usednames.add(name)
        if sp.get('assumed'):
            o = ['// contract only, proved in unit %s; from %s:%s  %s' % (sp['assumed'], f['loc'].get('f'), f['loc'].get('l'), self.key(f))]
            o.append('#[verifier::external_body] /* proved elsewhere */ pub fn %s%s(%s)%s' % (name, '<%s>' % sp['generic'] if sp.get('generic') else '', ', '.join(params), ' -> (r: %s)' % rt if rt else ''))
            if sp.get('requires'): o.append('    requires\n' + sp['requires'])
            if sp.get('ensures'): o.append('    ensures\n' + sp['ensures'])
            o.append('{ unimplemented!() }')
            self.assumed.append('%s (proved in unit %s)' % (self.key(f), sp['assumed']))
            return '\n'.join(o)
        body = f['body']
        for v in list(self.env.values()):
            if v['k'] == 'cptr' or (v['k'] == 'val'): self.emit('let ghost %s__0 = %s;' % (v['n'], v['n']))
            elif v['k'] == 'mptr' and not v.get('offref'): self.emit('let ghost %s__0 = %s;' % (v['off'], v['off']))
        self.emit_proof(sp.get('start'))
        self.vacpoint('start of ' + sp['as'])
        if ctor: self.ctor_init(f)
        self.stmt_list(body['b'], top=True)
        self.emit_proof(sp.get('end'))
        if ctor: self.emit('this')
        o = []
        attrs = '#[verifier::loop_isolation(false)]\n'
        if sp.get('rlimit'): attrs += '#[verifier::rlimit(%s)]\n' % sp['rlimit']
        if sp.get('spinoff', True): attrs += '#[verifier::spinoff_prover]\n'
        if sp.get('attr'): attrs += sp['attr'] + '\n'
        o.append('// from %s:%s  %s' % (f['loc'].get('f'), f['loc'].get('l'), self.key(f)))
        o.append(attrs + 'pub fn %s%s(%s)%s' % (name, '<%s>' % sp['generic'] if sp.get('generic') else '', ', '.join(params), ' -> (r: %s)' % rt if rt else ''))
        if sp.get('requires'): o.append('    requires\n' + sp['requires'])
        if sp.get('ensures'): o.append('    ensures\n' + sp['ensures'])
        o.append('{')
        o += self.lines
        o.append('}')
        want = set(sp['loops'])
        seen = set(self.loops_seen)
        if want - seen: raise Unsupported('loops %s of %s not present in the code' % (sorted(want - seen), name))
        if seen - want: raise Unsupported('loops %s of %s carry no invariant' % (sorted(seen - want), name))
        self.stats[name] = {'key': self.key(f), 'loops': len(seen), 'loc': f['loc']}
        return '\n'.join(o)

    @staticmethod
    def is_ctor(f):
        return bool(f.get('rec')) and not f.get('static') and f['n'] == re.sub(r'<.*', '', f['rec']).split('::')[-1]

    def ctor_init(self, f):
        rec = f['rec']; r = self.recs[rec]; vals = {}
        for i in f.get('inits', []):
            if i.get('base'):
                e = i['e']; c = self.byid.get(e.get('cid'))
                b = self.fresh('base')
                if c is None or self.speckey(c) is None: raise Unsupported('base constructor of ' + rec)
                self.emit('let %s = %s;' % (b, self.emit_call(dict(e, x='call'), c, self.spec.fns[self.speckey(c)], True)))
                for z in self.all_fields(i['base']): vals[z['n']] = b + '.' + rn(z['n'])
            else:
                fld = [z for z in r['fields'] if z['n'] == i['m']][0]; e = i['e']; v = self.fresh('f')
                self.emit('let %s = %s;' % (v, self.field_init(fld, e))); vals[i['m']] = v
        fl = []
        for z in self.all_fields(rec):
            fl.append('%s: %s' % (rn(z['n']), vals.get(z['n'], 'havoc()')))
        fl += ['%s: ghost_any()' % x.split(':')[0].strip() for x in self.spec.ghostfields.get(rec, [])]
        self.emit('let mut this = %s { %s };' % (self.rec_type(rec), ', '.join(fl)))

    def field_init(self, fld, e):
        t = unref(fld['t'])
        if scal(t): return self.rv(e)
        if t['k'] == 'ptr': return 'havoc()' if self.strip(e)['x'] in ('null', 'zero') else self.cptr(e)
        if t['k'] == 'rec' and t['name'].startswith('std::vector<'):
            if e['x'] == 'ctor' and not e['a']: return 'mem_empty()'
            raise Unsupported('vector member initialiser')
        return self.recval(e, t)

    def bind_param(self, p, n):
        t = p['t']; n = self.lname(n)
        isref = t['k'] == 'ref'
        u = unref(t)
        self.usednames.add(n)
        if not isref and u['k'] == 'ptr' and scal(u):
            self.env[p['id']] = {'k': 'val', 'n': n}; return ['%s: %s' % (n, scal(u))], n
        if u['k'] == 'ptr' and u['to']['k'] not in ('rec', 'fn'):
            to = u['to']
            if to['k'] == 'ptr' and p['n'] in self.sp.get('outptr', []):
                if not to['to'].get('const'): raise Unsupported('out-parameter pointing to mutable memory')
                self.env[p['id']] = {'k': 'outptr', 'n': n}
                return ['%s: &mut CPtr<%s>' % (n, self.rust_type(to['to']))], n
            if to['k'] == 'ptr':
                # pointer to pointers: read-only table of pointer values
                self.env[p['id']] = {'k': 'cptr', 'n': n}; self.emitraw('let mut %s = %s;' % (n, n)); return ['%s: CPtr<PtrVal>' % n], n
            if to['k'] == 'void':
                et = self.sp.get('voidptr', {}).get(p['n'])
                if et is None or to.get('const'): raise Unsupported('void* parameter')
                self.env[p['id']] = {'k': 'mptr', 'base': n, 'off': n + '_o', 'bref': True}
                self.memty[n] = et
                self.emitraw('let mut %s_o = %s_o;' % (n, n))
                return ['%s: &mut Mem<%s>' % (n, et), '%s_o: Off' % n], n
            if p['n'] in self.sp.get('scalarptr', []):
                self.env[p['id']] = {'k': 'valptr', 'n': n}; return ['%s: &mut %s' % (n, scal(to))], n
            if to.get('const'):
                self.env[p['id']] = {'k': 'cptr', 'n': n}
                self.emitraw('let mut %s = %s;' % (n, n))
                return ['%s: CPtr<%s>' % (n, self.rust_type(to))], n
            if isref and not t.get('const'):
                self.env[p['id']] = {'k': 'mptr', 'base': n, 'off': '*' + n + '_o', 'offref': n + '_o', 'bref': True}
                return ['%s: &mut Mem<%s>' % (n, self.rust_type(to)), '%s_o: &mut Off' % n], n
            self.env[p['id']] = {'k': 'mptr', 'base': n, 'off': n + '_o', 'bref': True}
            self.emitraw('let mut %s_o = %s_o;' % (n, n))
            return ['%s: &mut Mem<%s>' % (n, self.rust_type(to)), '%s_o: Off' % n], n
        if u['k'] == 'ptr' and scal(u['to']) and not u['to'].get('const') and p['n'] in self.sp.get('scalarptr', []):
            self.env[p['id']] = {'k': 'valptr', 'n': n}; return ['%s: &mut %s' % (n, scal(u['to']))], n
        if u['k'] == 'ptr':   # pointer to record
            c = u['to'].get('const')
            self.env[p['id']] = {'k': 'rec', 'n': n, 'ref': True}
            if not c: self.env[p['id']]['mut'] = True
            return ['%s: &%s%s' % (n, '' if c else 'mut ', self.rust_type(u['to']))], n
        s = scal(u)
        if s:
            if isref and not u.get('const'):
                self.env[p['id']] = {'k': 'valref', 'n': n}
                return ['%s: &mut %s' % (n, s)], n
            self.env[p['id']] = {'k': 'val', 'n': n}
            self.emitraw('let mut %s = %s;' % (n, n))
            return ['%s: %s' % (n, s)], n
        if u['k'] == 'rec':
            c = u.get('const') or not isref
            self.env[p['id']] = {'k': 'rec', 'n': n, 'ref': True}
            return ['%s: &%s%s' % (n, '' if c else 'mut ', self.rust_type(u))], n
        raise Unsupported('parameter type %s' % t)

    def emitraw(self, s):
        self.lines.append('    ' * self.ind + s)
    def emit(self, s, ln=None):
        self.lines.append('    ' * self.ind + s + ('  // L%d' % ln if ln else ''))
    def vacpoint(self, what):
        if getattr(self, 'vac', False):
            self.vacn += 1
            self.emitraw('proof { assert(lcv_vac(%d)); } // VAC %s' % (self.vacn, what))
    def emit_proof(self, text):
        if text and text.strip():
            for l in text.rstrip().split('\n'): self.lines.append('    ' * self.ind + l)

    def fresh(self, b='t'):
        self.tmp += 1
        return '%s__%d' % (b, self.tmp)

    # ---- statements -----------------------------------------------------
    def stmt_list(self, ss, top=False):
        for i, s in enumerate(ss):
            self.stmt(s)

    def block(self, s):
        self.ind += 1
        if s['s'] == 'block': self.stmt_list(s['b'])
        else: self.stmt(s)
        self.ind -= 1

    def stmt(self, s):
        k = s['s']; ln = s.get('ln')
        if k == 'null': return
        if k == 'block':
            self.emit('{'); self.block(s); self.emit('}'); return
        if k == 'decl':
            for d in s['d']:
                H = self.sp.get('decls', {}).get(d.get('n'), {})
                self.emit_proof(H.get('before')); self.decl(d, ln); self.emit_proof(H.get('after'))
            return
        if k == 'expr': self.effect(s['e'], ln); return
        if k == 'if':
            if s.get('init') or s.get('cv'):
                self.emit('{'); self.ind += 1
                for d in ('init', 'cv'):
                    if s.get(d): self.stmt(s[d])
                self.stmt({**s, 'init': None, 'cv': None})
                self.ind -= 1; self.emit('}'); return
            c = s['c']
            if c['x'] == 'const':
                if c['v'] != '0': self.inner(s['a'])
                elif s['b']: self.inner(s['b'])
                return
            c = self.simp_cond(c)
            if c is True: self.inner(s['a']); return
            if c is False:
                if s['b']: self.inner(s['b'])
                return
            e = self.rv(c)
            self.emit('if %s {' % e, ln); self.block(s['a'])
            if s['b']:
                self.emit('} else {'); self.block(s['b'])
            self.emit('}')
            return
        if k == 'while': self.loop(s['c'], None, s['b'], ln); return
        if k == 'for':
            self.emit('{'); self.ind += 1
            if s['i']: self.stmt(s['i'])
            self.loop(s['c'], s['u'], s['b'], ln)
            self.ind -= 1; self.emit('}')
            return
        if k == 'range': self.rangeloop(s, ln); return
        if k == 'do' and s['c'].get('v') in ('0', 'false') and not self.jumps(s['b']): self.inner(s['b']); return
        if k == 'do': self.loop(s['c'], None, s['b'], ln, do=True); return
        if k == 'ret':
            if s['e'] is None: self.emit('return;', ln)
            else:
                if self.sp.get('retrec') and not getattr(self, 'inl', 0):
                    z = s['e']
                    while z['x'] == 'cast': z = z['e']
                    to = unref(z['t']).get('to', {})
                    if z['x'] != 'var' or to.get('name') != self.sp['retrec'] or self.env[z['id']]['k'] != 'rec' or self.env[z['id']]['ref']: raise Unsupported('returned object')
                    e = self.env[z['id']]['n']
                else: e = self.rv(s['e'])
                if self.sp.get('return') and not getattr(self, 'inl', 0):
                    t = self.fresh('ret'); self.emit('let %s = %s;' % (t, e), ln); e = t
                    self.emit_proof([z.replace('@RET', t) for z in self.sp['return']] if isinstance(self.sp['return'], list) else self.sp['return'].replace('@RET', t))
                self.emit('return %s;' % e, ln)
            return
        if k == 'break': self.emit('break;', ln); return
        if k == 'continue':
            u, cond = self.loopctx[-1][:2]
            if len(self.loopctx[-1]) > 2: self.emit_proof(self.loopctx[-1][2])
            if u: self.effect(u, ln)
            if cond: self.emit(cond)
            self.emit('continue;', ln); return
        raise Unsupported('statement %s at line %s' % (s.get('k', k), ln))

    def inner(self, s):
        self.emit('{'); self.block(s); self.emit('}')

    def simp_cond(self, c):
        """prune constant parts of && / || (type tests folded by clang)"""
        if c['x'] == 'const': return c['v'] != '0'
        if c['x'] == 'bin' and c['op'] in ('&&', '||'):
            l = self.simp_cond(c['l']); r = self.simp_cond(c['r'])
            if c['op'] == '&&':
                if l is False or (r is False and not self.has_effect(c['l'])): return False
                if l is True: return r
                if r is True: return l
            else:
                if l is True or (r is True and not self.has_effect(c['l'])): return True
                if l is False: return r
                if r is False: return l
            if l is not c['l'] or r is not c['r']:
                c = dict(c); c['l'] = l; c['r'] = r
            return c
        if c['x'] == 'un' and c['op'] == '!':
            e = self.simp_cond(c['e'])
            if e is True: return False
            if e is False: return True
        return c

    def jumps(self, e):
        if isinstance(e, list): return any(self.jumps(z) for z in e)
        if not isinstance(e, dict): return False
        return e.get('s') in ('break', 'continue') or any(self.jumps(v) for v in e.values())

    def has_effect(self, e):
        if not isinstance(e, dict): return False
        if e.get('x') == 'asg' or (e.get('x') == 'un' and e['op'] in ('++', '--')): return True
        for v in e.values():
            if isinstance(v, dict) and self.has_effect(v): return True
            if isinstance(v, list) and any(self.has_effect(z) for z in v): return True
        return False

    loopctx = []
    def loop(self, c, u, body, ln, do=False):
        path = '.'.join([str(x - 1) for x in self.loopc[:-1]] + [str(self.loopc[-1])])
        self.loopc[-1] += 1
        self.loops_seen.append(path)
        L = self.sp['loops'].get(path)
        if L is None:
            raise Unsupported('loop %s of %s (line %s) carries no invariant' % (path, self.sp['as'], ln))
        self.emit_proof(L.get('before'))
        inv = L.get('inv', ''); dec = L.get('dec', '')
        def head(cond):
            self.emit('while %s' % cond, ln)
            if inv.strip():
                self.emit('    invariant'); self.emit_proof(inv)
            if dec.strip():
                self.emit('    decreases'); self.emit_proof(dec)
            self.emit('{')
        post = None
        self.loopc.append(0)
        # while (n--) B   ==   while n != 0 { n = n - 1; B }  n = n - 1;
        cc = c
        while cc is not None and cc['x'] == 'cast' and cc['ck'] in ('IntegralToBoolean', 'LValueToRValue', 'NoOp'): cc = cc['e']
        if not do and c is not None and cc['x'] == 'un' and cc['op'] == '--' and cc['post']:
            lv = self.lvalue(cc['e']); 
            head('%s != 0' % self.lv_get(lv))
            self.ind += 1; self.effect(cc, ln); self.emit_proof(L.get('begin')); (path in self.sp.get('dead', [])) or self.vacpoint('loop %s of %s' % (path, self.sp['as'])); self.ind -= 1
            self.loopctx = self.loopctx + [(u, None)]
            self.block(body)
            self.loopctx = self.loopctx[:-1]
            self.ind += 1
            self.emit_proof(L.get('end'))
            if u: self.effect(u, ln)
            self.ind -= 1
            self.emit('}')
            self.effect(cc, ln)
        elif c is not None and (do or self.has_effect(c)):
            g = 'go_' + path.replace('.', '_')
            if do: self.emit('let mut %s = true;' % g)
            else: self.emit('let mut %s = %s;' % (g, self.rv(c)))
            head(g)
            self.ind += 1; self.emit_proof(L.get('begin')); (path in self.sp.get('dead', [])) or self.vacpoint('loop %s of %s' % (path, self.sp['as'])); self.ind -= 1
            self.loopctx = self.loopctx + [(None, None)]
            if self.contains(body, 'continue'): raise Unsupported('continue in do loop')
            self.block(body)
            self.loopctx = self.loopctx[:-1]
            self.ind += 1
            if u: self.effect(u, ln)
            self.emit('%s = %s;' % (g, self.rv(c)), ln)
            self.emit_proof(L.get('end'))
            self.ind -= 1
            self.emit('}')
        else:
            if c is None: cond = 'true'
            else:
                save = self.lines; self.lines = []
                cond = self.rv(c)
                if self.lines: self.lines = save; raise Unsupported('loop condition needs statements')
                self.lines = save
            head(cond)
            self.ind += 1; self.emit_proof(L.get('begin')); (path in self.sp.get('dead', [])) or self.vacpoint('loop %s of %s' % (path, self.sp['as'])); self.ind -= 1
            self.loopctx = self.loopctx + [(u, None)]
            self.block(body)
            self.loopctx = self.loopctx[:-1]
            self.ind += 1
            self.emit_proof(L.get('end'))
            if u: self.effect(u, ln)
            self.ind -= 1
            self.emit('}')
        self.loopc.pop()
        self.emit_proof(L.get('after'))

    def rangeloop(self, s, ln):
        # for (v : r) over a vector or a read-only sequence, as an index loop
        path = '.'.join([str(x - 1) for x in self.loopc[:-1]] + [str(self.loopc[-1])])
        self.loopc[-1] += 1
        self.loops_seen.append(path)
        L = self.sp['loops'].get(path)
        if L is None: raise Unsupported('loop %s of %s (line %s) carries no invariant' % (path, self.sp['as'], ln))
        tag = path.replace('.', '_')
        i, n = 'ri_' + tag, 'rn_' + tag
        v = s['v']; vt = v['t']; isref = vt['k'] == 'ref' and not (unref(vt).get('const') or vt.get('const'))
        z = self.strip(s['r']); zt = unref(z['t'])
        vec = not scal(zt) and zt['k'] == 'rec' and (zt['name'].startswith('std::vector<') or zt['name'] in self.spec.vectors)
        self.emit('{'); self.ind += 1
        if vec and z['x'] in ('var', 'mem'):
            b = self.place(z); self.emit('let %s: i64 = mem_len(%s);' % (n, self.immarg(b)), ln)
        elif scal(zt) and scal(zt).startswith('Sl<'):
            b = None; self.emit('let rr_%s = %s;' % (tag, self.rv(s['r'])), ln); self.emit('let %s: i64 = sl_len(rr_%s) as i64;' % (n, tag))
            if isref and not scal(unref(vt)): raise Unsupported('range over references')
        elif scal(zt) and scal(zt) in self.spec.ranges:
            b = None; self.emit('let rr_%s = %s(%s);' % (tag, self.spec.ranges[scal(zt)], self.rv(s['r'])), ln); self.emit('let %s: i64 = sl_len(rr_%s) as i64;' % (n, tag))
            if isref and not scal(unref(vt)): raise Unsupported('range over references')
        else: raise Unsupported('range loop')
        self.emit('let mut %s: i64 = 0;' % i)
        self.emit_proof(L.get('before'))
        self.emit('while %s < %s' % (i, n), ln)
        self.emit('    invariant 0 <= %s <= %s,' % (i, n)); self.emit_proof(L.get('inv'))
        self.emit('    decreases %s - %s' % (n, i)); self.emit('{')
        self.loopc.append(0)
        self.ind += 1
        nm = self.newname(v['n'])
        if vec and isref: self.env[v['id']] = {'k': 'elem', 'base': b, 'idx': i}
        elif vec: self.env[v['id']] = {'k': 'val', 'n': nm}; self.emit('let mut %s = mrd(%s, off0(), %s);' % (nm, self.immarg(b), i), ln)
        else: self.env[v['id']] = {'k': 'val', 'n': nm}; self.emit('let mut %s = sl_at(rr_%s, %s as u64);' % (nm, tag, i), ln)
        self.emit_proof(L.get('begin')); (path in self.sp.get('dead', [])) or self.vacpoint('loop %s of %s' % (path, self.sp['as'])); self.ind -= 1
        self.loopctx = self.loopctx + [(None, '%s = %s + 1;' % (i, i), L.get('end'))]
        self.block(s['b'])
        self.loopctx = self.loopctx[:-1]
        self.ind += 1
        self.emit_proof(L.get('end'))
        self.emit('%s = %s + 1;' % (i, i)); self.ind -= 1; self.emit('}')
        self.loopc.pop()
        self.emit_proof(L.get('after'))
        self.ind -= 1; self.emit('}')

    def contains(self, s, kind):
        if isinstance(s, dict):
            if s.get('s') == kind: return True
            if s.get('s') in ('for', 'while', 'do', 'range') and kind == 'continue': return False
            return any(self.contains(v, kind) for v in s.values())
        if isinstance(s, list): return any(self.contains(v, kind) for v in s)
        return False

    # ---- declarations ---------------------------------------------------
    def lname(self, n):
        # a C++ local must not hide a function of the specification
        n = rn(n)
        return n + '_l' if n in self.specnames else n

    def newname(self, n):
        n = self.lname(n)
        self.usednames.add(n)
        return n

    def decl(self, d, ln):
        t = d['t']; n = self.newname(d['n']); u = unref(t)
        init = d.get('init')
        if u['k'] == 'rec' and scal(u) is None:
            name = u['name']
            if name == 'ruy::profiler::ScopeLabel' or re.match(r'std::basic_stringstream<', name): return
            r = self.recs.get(name)
            if r and r['union']:
                self.env[d['id']] = {'k': 'bfu', 'n': n, 'rec': r}
                self.emit('let mut %s: u32 = havoc();' % n, ln); return
            if r and all('bits' in f for f in r['fields']) and r['fields']:
                raise Unsupported('bitfield struct')
            if name.startswith('std::array<') or name.startswith('std::vector<') or name in self.spec.vectors:
                et = self.rust_type(u)[4:-1]
                if name.startswith('std::array<'):
                    cnt = int(re.search(r', (\d+)>$', name).group(1))
                    if init is None or self.is_undef_init(init): self.emit('let mut %s: Mem<%s> = new_arr(%d, havoc());' % (n, et, cnt), ln)
                    else:
                        self.array_init(n, et, cnt, init, ln)
                else: self.emit('let mut %s: Mem<%s> = %s;' % (n, et, self.vecval(init)), ln)
                self.env[d['id']] = {'k': 'mem', 'n': n}
                return
            self.env[d['id']] = {'k': 'rec', 'n': n, 'ref': t['k'] == 'ref'}
            if r and not r['union'] and t['k'] != 'ref' and name not in self.spec.recs and not self.all_fields(name) and init is not None and init['x'] == 'ctor' and all(not self.has_effect(a) for a in init['a']):
                return      # an object without state
            if t['k'] == 'ref':
                self.emit('let %s = %s;' % (n, self.recref(init)), ln)
            else:
                rvl = self.recval(init, u)
                self.emit('let mut %s%s = %s;' % (n, ': ' + self.rec_type(name) if rvl == 'havoc()' else '', rvl), ln)
            return
        if u['k'] == 'arr':
            et = self.rust_type(u['of'])
            self.env[d['id']] = {'k': 'mem', 'n': n}
            if init is None: self.emit('let mut %s: Mem<%s> = new_arr(%d, havoc());' % (n, et, u['n']), ln)
            else: self.array_init(n, et, u['n'], init, ln)
            return
        if u['k'] == 'ptr' and not (scal(u) and t['k'] != 'ref'):
            to = u['to']
            if to['k'] == 'rec' and to.get('const') and init is not None and (init['x'] == 'null' or (init['x'] == 'cast' and init['ck'] == 'NullToPointer')):
                # pointer to const records, set later: a copy of the record
                self.env[d['id']] = {'k': 'rec', 'n': n, 'ref': False, 'copy': True}
                self.emit('let mut %s: %s = havoc();' % (n, self.rec_type(to['name'])), ln); return
            if to['k'] == 'rec' and init is not None:
                ud = self.userdata(init)
                if ud: self.env[d['id']] = {'k': 'rec', 'n': ud, 'ref': True, 'mut': True}; return
                si = self.strip(init)
                if si['x'] in ('call', 'mcall') and not to.get('const'):
                    # a handle returned by value (the model of the pointed-to record)
                    self.env[d['id']] = {'k': 'rec', 'n': n, 'ref': False}
                    self.emit('let mut %s = %s;' % (n, self.rv(si)), ln); return
                if si['x'] == 'cond' and to['name'] == 'TfLiteTensor':
                    def arm(z):
                        z = self.strip(z)
                        return 'null_tensor()' if z['x'] in ('null', 'zero') or z.get('ck') == 'NullToPointer' or unref(z['t'])['k'] == 'null' else self.rv(z)
                    self.env[d['id']] = {'k': 'rec', 'n': n, 'ref': False}
                    c = self.rv(si['c']); self.emit('let mut %s = if %s { %s } else { %s };' % (n, c, arm(si['a']), arm(si['b'])), ln); return
                if si['x'] == 'new' and si['nt']['k'] == 'rec':
                    self.env[d['id']] = {'k': 'rec', 'n': n, 'ref': False, 'mut': True}
                    self.emit('let mut %s = %s;' % (n, self.default_rec(si['nt']['name'], si.get('e'))), ln); return
                root = self.placeroot(si)
                if root is not None and root.get('mut'):
                    tgt = si['e'] if si['x'] == 'un' and si['op'] == '&' else si
                    self.env[d['id']] = dict(self.env[self.strip(tgt)['id']]) if self.strip(tgt)['x'] == 'var' else {'k': 'rec', 'n': self.recplace(tgt), 'ref': False, 'mut': True}
                    return
            if to['k'] == 'rec':
                self.env[d['id']] = {'k': 'rec', 'n': n, 'ref': True}
                self.emit('let %s = %s;' % (n, self.recref(init)), ln); return
            if to['k'] == 'ptr' or to.get('const'):
                self.env[d['id']] = {'k': 'cptr', 'n': n}
                if init is None or init['x'] == 'null' or (init['x'] == 'cast' and init['ck'] == 'NullToPointer'):
                    et = 'PtrVal' if to['k'] == 'ptr' else self.rust_type(to)
                    self.emit('let mut %s: CPtr<%s> = havoc();' % (n, et), ln)
                else: self.emit('let mut %s = %s;' % (n, self.cptr(init)), ln)
                return
            base, off = self.mptr(init)
            self.env[d['id']] = {'k': 'mptr', 'base': base[0], 'bref': base[1], 'off': n + '_o'}
            self.emit('let mut %s_o = %s;' % (n, off), ln)
            return
        s = scal(u)
        if s is None: raise Unsupported('local %s of type %s' % (n, t))
        if t['k'] == 'ref' and not (u.get('const') or t['to'].get('const')):
            raise Unsupported('reference local')
        self.env[d['id']] = {'k': 'val', 'n': n}
        if u['k'] == 'rec' and (init is None or (init['x'] == 'ctor' and not init['a'])): self.emit('let mut %s: %s = %s;' % (n, s, self.spec.ctors.get(u['name'] + '/0', 'havoc()')), ln); return
        if init is None: self.emit('let mut %s: %s = havoc();' % (n, s), ln)
        else: self.emit('let mut %s: %s = %s;' % (n, s, self.rv(init)), ln)

    def vecval(self, e):
        # a newly made vector
        if e is None: return 'mem_empty()'
        z = self.strip(e)
        if z['x'] == 'ctor':
            if z['copy'] and len(z['a']) == 1: return self.vecval(z['a'][0])
            if not z['a']: return 'mem_empty()'
            if z['rec'].startswith('std::vector<') and len(z['pt']) == 2 and scal(unref(z['pt'][0])) in ('u64', 'i32', 'i64') and unref(z['pt'][1]).get('name', '').startswith('std::allocator<'):
                m = re.match(r'std::vector<([\w ]+)>$', z['rec'])
                m2 = re.match(r'std::vector<(.+)>$', z['rec'])
                if not m and m2 and m2.group(1) in VALUES and self.spec.ctors.get(m2.group(1) + '/0'): return 'new_arr(%s as u64, %s)' % (self.rv(z['a'][0]), self.spec.ctors[m2.group(1) + '/0'])
                if not m or m.group(1) not in self.CT: raise Unsupported('vector of ' + z['rec'])
                # value-initialised elements
                return 'new_arr(%s as u64, %s)' % (self.rv(z['a'][0]), self.zero(self.CT[m.group(1)]))
            return self.ctorval(z)
        if z['x'] in ('call', 'mcall', 'opcall'): return self.rv(z)
        if z['x'] in ('var', 'mem'): return 'clone_rec(%s)' % self.immarg(self.place(z))
        raise Unsupported('local vector')

    def ctorval(self, z):
        # a constructor call with an assumed contract: by number (and types) of parameters
        k = z['rec'] + '/' + str(len(z['a']))
        h = self.spec.ctors.get(k + ':' + ','.join(unref(p).get('name', scal(unref(p)) or unref(p)['k']) for p in z['pt'])) or self.spec.ctors.get(k)
        if h is None: raise Unsupported('constructor ' + k + ':' + ','.join(unref(p).get('name', scal(unref(p)) or unref(p)['k']) for p in z['pt']))
        n = h.count('%s')
        return h % tuple(self.ctorarg(a, p) for a, p in list(zip(z['a'], z['pt']))[:n])

    def ctorarg(self, a, p):
        u = unref(p)
        if scal(u): return self.rv(a)
        y = self.strip(a)
        if u['k'] == 'rec' and y['x'] == 'var' and self.env.get(y['id'], {}).get('k') == 'mem': return self.immarg(self.place(y))
        if u['k'] == 'rec' and (u['name'].startswith('std::vector<') or u['name'] in self.spec.vectors): return self.immarg(self.place(a))
        if u['k'] == 'ptr' and self.fieldptr(a): return self.cptr(a)
        if u['k'] == 'ptr' and self.strip(a)['x'] == 'mcall' and self.extern(self.strip(a)): return self.rv(self.strip(a))
        return self.arg(a, p)

    def is_undef_init(self, i):
        return i['x'] == 'ctor' and not i['a']

    def array_init(self, n, et, cnt, init, ln):
        while init['x'] == 'init' and len(init['a']) == 1 and init['a'][0]['x'] == 'init': init = init['a'][0]
        if init['x'] != 'init': raise Unsupported('array initialiser %s' % init['x'])
        vals = init['a']; fill = init.get('fill')
        z = self.zero(et)
        explicit = [v for v in vals if not v['x'] == 'zero']
        self.emit('let mut %s: Mem<%s> = new_arr(%d, %s);' % (n, et, cnt, z), ln)
        for i, v in enumerate(vals):
            if v['x'] == 'zero': continue
            e = self.rv(v)
            if e == z: continue
            self.emit('mwr(&mut %s, off0(), %d, %s);' % (n, i, e), ln)

    def zero(self, et):
        if et == 'bool': return 'false'
        if et[0] == 'F': return self.fconst('0', et)
        return '0' + et

    def fconst(self, bits, et):
        n = 'lit_%s' % et
        if et == 'F64':
            from fractions import Fraction
            import struct
            f = Fraction(struct.unpack('<d', struct.pack('<Q', int(bits)))[0])
            n = 'lit_F64_%d_%d' % (abs(f.numerator), f.denominator) + ('n' if f < 0 else '')
            v = '%dreal' % abs(f.numerator) + (' / %dreal' % f.denominator if f.denominator != 1 else '')
            if self.spec.rounded and f.denominator != 1:
                self.helper(n, '#[verifier::external_body] pub fn %s() -> (r: F64) ensures %dreal * r.v@ == %s%dreal { unimplemented!() }' % (n, f.denominator, '0real - ' if f < 0 else '', abs(f.numerator)))
                return n + '()'
            self.helper(n, '#[verifier::external_body] pub fn %s() -> (r: F64) ensures r.v@ == %s%s { unimplemented!() }' % (n, '0real - ' + v if f < 0 else v, ', whole(r.v@)' if self.spec.rounded and f.denominator == 1 else ''))
            return n + '()'
        self.helper(n, 'pub open spec fn s%s(b: u%s) -> %s { %s { bits: b } }\npub fn %s(b: u%s) -> (r: %s) ensures r == s%s(b) { %s { bits: b } }' % (n, et[1:], et, et, n, et[1:], et, n, et))
        return '%s(%s)' % (n, bits)

    # ---- pointers -------------------------------------------------------
    def strip(self, e):
        while e['x'] == 'cast' and (e['ck'] in ('LValueToRValue', 'NoOp', 'ArrayToPointerDecay', 'UncheckedDerivedToBase', 'DerivedToBase', 'ConstructorConversion', 'UserDefinedConversion') or (e['ck'] == 'BitCast' and self.viewcast(e))):
            e = e['e']
        return e

    def viewcast(self, e):
        # a reinterpret_cast between pointers is only followed into memory whose
        # view width is declared (accesses are then checked against it)
        z = e
        while z['x'] in ('cast', 'bin', 'un'): z = z.get('e') or z.get('l')
        return z['x'] == 'var' and (self.env.get(z['id'], {}).get('base') in self.memty)

    def i64(self, e):
        t = scal(unref(e['t']))
        r = self.rv(e)
        if t == 'i64': return r
        if t == 'u64': return self.cast_int(r, 'u64', 'i64')
        return '(%s as i64)' % r

    def is_mut_ptr(self, e):
        e = self.strip(e)
        x = e['x']
        if x == 'mem' and self.isfieldext(e): return False
        if x == 'var':
            v = self.env.get(e['id'])
            if v is None: raise Unsupported('unknown variable ' + e['n'])
            return v['k'] in ('mptr', 'mem')
        if x == 'bin': return self.is_mut_ptr(e['l'])
        if x == 'un' and e['op'] in ('++', '--'): return self.is_mut_ptr(e['e'])
        if x == 'un' and e['op'] == '&':
            s = self.strip(e['e'])
            if s['x'] == 'idx': return self.is_mut_ptr(s['b'])
            if s['x'] == 'un' and s['op'] == '*': return self.is_mut_ptr(s['e'])
        if x == 'mcall' and e['n'] in ('data', 'get', 'begin'): return True
        if x == 'cast': return self.is_mut_ptr(e['e'])
        if x == 'call' and (self.ptrfn(e) or self.outmem(e)): return True
        if x == 'mem':
            t = unref(e['t'])
            return t['k'] == 'rec' or t['k'] == 'arr' or self.owned(e)
        return False

    def owned(self, e):
        # a raw pointer field declared to own the memory it points to
        t = unref(e['b']['t'])
        if t['k'] == 'ptr': t = t['to']
        return t.get('name', '') + '.' + e['n'] in self.spec.own

    def nullable(self, e):
        # the owning-pointer field e names, when it may be null
        e = self.strip(e)
        if e['x'] != 'mem': return None
        t = unref(e['b']['t'])
        if t['k'] == 'ptr': t = t['to']
        return self.recplace(e) if t.get('name', '') + '.' + e['n'] in self.spec.nullable else None

    def deref(self, e):
        p = self.nullable(e)
        if p: self.emit('up_check(%s__set);' % p)

    def userdata(self, e):
        # reinterpret_cast<T*>(node->user_data): the operator's own data object
        z = e
        while z['x'] == 'cast': z = z['e']
        if z['x'] != 'mem' or z['n'] != 'user_data': return None
        ud = self.sp.get('userdata')
        if ud is None: raise Unsupported('user data')
        to = unref(e['t'])['to']
        if to.get('name') != ud[0]: raise Unsupported('user data taken as ' + str(to.get('name')))
        return ud[1]

    def placeroot(self, e):
        e = self.strip(e)
        while e['x'] in ('mem', 'un', 'cast'): e = self.strip(e.get('b') or e.get('e'))
        return self.env.get(e['id']) if e['x'] == 'var' else None

    def default_rec(self, name, init):
        # value initialisation: default member initialisers, zero otherwise
        if init is not None and not (init['x'] in ('init', 'ctor', 'zero')): raise Unsupported('initialiser of new ' + name)
        if init is None: raise Unsupported('uninitialised new ' + name)
        if init['x'] == 'ctor' and init['a']: raise Unsupported('constructor call in new')
        vals = init.get('a', []) if init['x'] == 'init' else []
        fl = []
        fields = self.all_fields(name)
        for i, z in enumerate(fields):
            v = vals[i] if i < len(vals) and len(vals) == len(fields) else z.get('init')
            if name + '.' + z['n'] in self.spec.nullable: fl.append('%s: havoc(), %s__set: false' % (rn(z['n']), rn(z['n']))); continue
            fl.append('%s: %s' % (rn(z['n']), self.default_val(unref(z['t']), v)))
        fl += ['%s: ghost_any()' % x.split(':')[0].strip() for x in self.spec.ghostfields.get(name, [])]
        return '%s { %s }' % (self.rec_type(name), ', '.join(fl))

    def default_val(self, t, v):
        s = scal(t)
        if s: return self.rv(v) if v is not None and v['x'] != 'zero' else self.zero(s)
        if t['k'] == 'rec':
            if t['name'].startswith('std::vector<'): return 'mem_empty()'
            m = re.match(r'std::unique_ptr<(.*)>$', t['name'])
            if m: return 'up_null_%s()' % self.rec_type(m.group(1)).split('<')[0]
            return self.default_rec(t['name'], v if v is not None and v['x'] in ('init', 'zero') else {'x': 'zero'})
        return 'havoc()'

    def outmem(self, e):
        # GetTensorData<T>(tensor) of a tensor being written
        if e['x'] != 'call' or e.get('fn') != 'tflite::GetTensorData': return None
        t = unref(e['t'])
        if t['k'] != 'ptr' or t['to'].get('const'): return None
        z = self.strip(e['a'][0])
        if z['x'] != 'var': raise Unsupported('data of an unnamed tensor')
        ty = self.rust_type(t['to'])
        m = self.sp.get('outmem', {}).get(self.env[z['id']]['n'], {})
        if ty not in m: raise Unsupported('data of %s written as %s' % (z['n'], ty))
        return m[ty]

    def ptrfn(self, e):
        return self.spec.ptrfns.get(e.get('fn', '') + '/' + str(len(e.get('a', []))))

    def place(self, e):
        """(rust place expression, is_reference) of an owned memory object"""
        e = self.strip(e)
        if e['x'] == 'var':
            v = self.env[e['id']]
            if v['k'] in ('mem',): return v['n'], False
            if v['k'] == 'rec': return v['n'], v['ref']
        if e['x'] == 'mem':
            return self.recplace(e['b']) + '.' + rn(e['n']), False
        raise Unsupported('memory place ' + e['x'])

    def recplace(self, e):
        e = self.strip(e)
        if e['x'] == 'this': return 'this'
        if e['x'] == 'var':
            v = self.env.get(e['id'])
            if v and v['k'] == 'rec': return v['n']
            raise Unsupported('record variable ' + e['n'])
        if e['x'] == 'mem': return self.recplace(e['b']) + '.' + rn(e['n'])
        if e['x'] == 'un' and e['op'] in ('*', '&'): return self.recplace(e['e'])
        if e['x'] == 'opcall' and e['op'] in ('->', '*'): self.deref(e['a'][0]); return self.recplace(e['a'][0])
        if e['x'] == 'mcall' and e['n'] == 'get': self.deref(e['o']); return self.recplace(e['o'])
        if e['x'] == 'call' and e.get('fn') in ('tflite::GetInput', 'tflite::GetOutput', 'tflite::GetTemporary'): return self.rv(e)
        raise Unsupported('record place ' + e['x'])

    def recref(self, e):
        s = self.strip(e)
        if s['x'] in ('call', 'mcall'): return '&' + self.rv(s)
        return '&' + self.recplace(e)

    def recval(self, e, t):
        if e is None: return 'havoc()'
        s = self.strip(e)
        if s['x'] == 'ctor':
            m = re.match(r'std::unique_ptr<(.*)>$', s['rec'])
            if m and len(s['a']) == 1:
                z = s['a'][0]
                while z['x'] == 'cast': z = z['e']
                m2 = re.match(r'std::unique_ptr<(.*)>$', unref(z['t']).get('name', ''))
                if m2:
                    v = self.recval(z, unref(z['t']))
                    if m2.group(1) == m.group(1): return v
                    return 'up_%s_%s(%s)' % (self.rec_type(m2.group(1)), self.rec_type(m.group(1)), v)
            if s['copy'] and len(s['a']) == 1:
                return self.recval(s['a'][0], t)
            h = self.spec.ctors.get(s['rec'] + '/' + str(len(s['a'])))
            if h: return h % tuple(self.arg(a, p) for a, p in zip(s['a'], s['pt']))
            return 'havoc()' if not s['a'] else self._uns('constructor ' + s['rec'])
        if s['x'] in ('call', 'mcall', 'opcall'): return self.rv(s)
        if s['x'] in ('var', 'mem', 'un'):
            v = self.env.get(s['id']) if s['x'] == 'var' else None
            return 'clone_rec(%s%s)' % ('&*' if v and v.get('ref') else '&', self.recplace(s))
        raise Unsupported('record value ' + s['x'])

    def _uns(self, m): raise Unsupported(m)

    def mptr(self, e):
        """((base place, base is reference), offset expr) for a pointer to mutable memory"""
        e = self.strip(e)
        x = e['x']
        if x == 'var':
            v = self.env[e['id']]
            if v['k'] == 'mptr': return (v['base'], v['bref']), v['off']
            if v['k'] == 'mem': return (v['n'], False), 'off0()'
            raise Unsupported('%s is not a mutable pointer' % e['n'])
        if x == 'bin' and e['op'] in ('+', '-'):
            l, r = e['l'], e['r']
            if unref(l['t'])['k'] != 'ptr': l, r = r, l
            b, o = self.mptr(l)
            k = self.scaled(b, l, self.i64(r))
            return b, 'oadd(%s, %s)' % (o, k if e['op'] == '+' else 'neg_i64(%s)' % k if self.neg() else '')
        if x == 'un' and e['op'] in ('++', '--'):
            b, o = self.mptr(e['e'])
            if self.scale(b, e['e']) != 1: raise Unsupported('increment of a rescaled pointer')
            if e['post']:
                t = self.fresh('p')
                self.emit('let %s = %s;' % (t, o))
                self.emit('%s = oadd(%s, %s);' % (o, o, '1' if e['op'] == '++' else '-1'))
                return b, t
            self.emit('%s = oadd(%s, %s);' % (o, o, '1' if e['op'] == '++' else '-1'))
            return b, o
        if x == 'un' and e['op'] == '&':
            s = self.strip(e['e'])
            if s['x'] == 'idx':
                b, o = self.mptr(s['b'])
                return b, 'oadd(%s, %s)' % (o, self.scaled(b, s['b'], self.i64(s['i'])))
            if s['x'] == 'un' and s['op'] == '*': return self.mptr(s['e'])
        if x == 'mcall' and e['n'] in ('data', 'begin'):
            return self.place(e['o']), 'off0()'
        if x == 'mcall' and e['n'] == 'get':
            return self.place(e['o']), 'off0()'
        if x == 'mem': return self.place(e), 'off0()'
        if x == 'call' and self.outmem(e): return (self.outmem(e), True), 'off0()'
        if x == 'call' and self.ptrfn(e):
            fld, h = self.ptrfn(e).split(None, 1)
            a0 = self.strip(e['a'][0])
            if a0['x'] == 'un' and a0['op'] == '&': a0 = self.strip(a0['e'])
            pl = self.recplace(a0)
            t = self.fresh('p')
            h = h.replace('$0', pl)
            for i in range(1, len(e['a'])): h = h.replace('$%d' % i, self.rv(e['a'][i]))
            self.emit('let %s = %s;' % (t, h))
            return (pl + '.' + fld, False), t
        if x == 'cast' and unref(e['t'])['k'] == 'ptr':
            to = unref(e['t'])['to']; fr = unref(e['e']['t'])
            if fr['k'] == 'ptr' and (to['k'] == 'void' or (scal(to) and scal(fr['to']) and self.rust_type(to) == self.rust_type(fr['to']))): return self.mptr(e['e'])
        raise Unsupported('mutable pointer expression %s' % x)

    SZ = {'i8': 1, 'u8': 1, 'bool': 1, 'i16': 2, 'u16': 2, 'i32': 4, 'u32': 4, 'F32': 4, 'i64': 8, 'u64': 8}
    def scale(self, b, pe):
        # elements of the backing memory per pointee (memory viewed at another width)
        et = self.memty.get(b[0])
        if et is None: return 1
        to = unref(pe['t'])['to']
        if to['k'] == 'void': return 1
        a, c = self.SZ[scal(to)], self.SZ[et]
        if a % c: raise Unsupported('pointer finer than its memory')
        if a == c and scal(to) != et: raise Unsupported('memory viewed as another type')
        return a // c
    def scaled(self, b, pe, k):
        m = self.scale(b, pe)
        if m == 1: return k
        n = self.helper('scale_i64', 'pub fn scale_i64(a: i64, k: i64) -> (r: i64) requires -0x4000_0000_0000 < a < 0x4000_0000_0000, 0 < k <= 8 ensures r == a * k { proof { assert(-0x3_0000_0000_0000 * 8 < a * k < 0x3_0000_0000_0000 * 8) by (nonlinear_arith) requires -0x4000_0000_0000 < a < 0x4000_0000_0000, 0 < k <= 8; } a * k }')
        return '%s(%s, %d)' % (n, k, m)

    def neg(self):
        self.helper('neg_i64', 'pub fn neg_i64(x: i64) -> (r: i64) requires x > i64::MIN ensures r == -x { 0 - x }')
        return True

    def mutarg(self, b):
        return b[0] if b[1] and '.' not in b[0] else '&mut ' + b[0]
    def immarg(self, b):
        return '&' + b[0] if not b[1] else '&*' + b[0]

    def cptr(self, e):
        """a CPtr expression"""
        if e['x'] == 'cast' and e['ck'] == 'NoOp' or e['x'] == 'cast' and e['ck'] == 'LValueToRValue' or e['x'] == 'cast' and e['ck'] == 'ArrayToPointerDecay':
            return self.cptr(e['e'])
        if e['x'] == 'cast' and e['ck'] == 'BitCast' and scal(unref(e['t'])['to']) == 'u8' and scal(unref(e['e']['t']).get('to', {'k': ''})) == 'i8':
            self.helper('bytes_of', '#[verifier::external_body] pub fn bytes_of(p: CPtr<i8>) -> (r: CPtr<u8>) ensures r.o@ == p.o@, r.s@ == as_u8(p.s@) { unimplemented!() }')
            return 'bytes_of(%s)' % self.cptr(e['e'])
        x = e['x']
        if x == 'var':
            v = self.env.get(e['id'])
            if v is None: raise Unsupported('unknown pointer ' + e['n'])
            if v['k'] == 'cptr': return v['n']
            if v['k'] == 'mptr': return 'cptr_of(%s, %s)' % (self.immarg((v['base'], v['bref'])), v['off'])
            if v['k'] == 'mem': return 'cptr_of(&%s, off0())' % v['n']
            raise Unsupported('pointer ' + e['n'])
        if x == 'bin' and e['op'] in ('+', '-'):
            l, r = e['l'], e['r']
            if unref(l['t'])['k'] not in ('ptr',): l, r = r, l
            p = self.cptr(l); k = self.i64(r)
            if e['op'] == '-': self.neg(); k = 'neg_i64(%s)' % k
            return 'cadd(%s, %s)' % (p, k)
        if x == 'un' and e['op'] in ('++', '--'):
            p = self.cptr(e['e']); d = '1' if e['op'] == '++' else '-1'
            if e['post']:
                t = self.fresh('p'); self.emit('let %s = %s;' % (t, p)); self.emit('%s = cadd(%s, %s);' % (p, p, d)); return t
            self.emit('%s = cadd(%s, %s);' % (p, p, d)); return p
        if x == 'un' and e['op'] == '&':
            s = self.strip(e['e'])
            if s['x'] == 'idx': return 'cadd(%s, %s)' % (self.cptr(s['b']), self.i64(s['i']))
            if s['x'] == 'un' and s['op'] == '*': return self.cptr(s['e'])
        if x == 'mcall' and e['n'] in ('data', 'begin', 'get') and not self.extern(e):
            b = self.place(e['o'])
            return 'cptr_of(&%s, off0())' % b[0]
        if x == 'mem':
            t = unref(e['t'])
            fe = self.fieldext(e)
            if fe: return fe
            p = self.recplace(e['b']) + '.' + rn(e['n'])
            if t['k'] == 'ptr' and not self.owned(e): return p
            return 'cptr_of(&%s, off0())' % p
        if x == 'cond':
            return '(if %s { %s } else { %s })' % (self.rv(e['c']), self.cptr(e['a']), self.cptr(e['b']))
        if x == 'idx' or (x == 'un' and e['op'] == '*'):
            # element of a pointer table
            if x == 'idx': pv = 'rd(%s, %s)' % (self.cptr(e['b']), self.i64(e['i']))
            else: pv = 'rd(%s, 0)' % self.cptr(e['e'])
            return 'deref_ptrval(%s, heap)' % pv
        if x in ('call', 'mcall'): return self.rv(e)
        raise Unsupported('pointer expression %s' % x)

    # ---- lvalues --------------------------------------------------------
    def lvalue(self, e):
        e = self.strip(e)
        x = e['x']
        if x == 'var':
            v = self.env.get(e['id'])
            if v is None: raise Unsupported('unknown variable ' + e['n'])
            if v['k'] in ('val',): return ('val', v['n'])
            if v['k'] == 'elem': return ('mem', v['base'], 'off0()', v['idx'])
            if v['k'] == 'valref': return ('val', '*' + v['n'])
            if v['k'] == 'cptr': return ('cptr', v['n'])
            if v['k'] == 'mptr': return ('mptr', v)
            if v['k'] == 'rec': return ('rec', v['n'])
            raise Unsupported('assignment to ' + e['n'])
        if x == 'un' and e['op'] == '*':
            s = self.strip(e['e'])
            if s['x'] == 'var' and self.env.get(s['id'], {}).get('k') == 'valptr': return ('val', '*' + self.env[s['id']]['n'])
            if s['x'] == 'var' and self.env.get(s['id'], {}).get('k') == 'outptr': return ('cptr', '*' + self.env[s['id']]['n'])
            if self.is_mut_ptr(s):
                b, o = self.mptr(s)
                if self.scale(b, e['e']) != 1: raise Unsupported('access wider than its memory')
                return ('mem', b, o, '0')
            return ('cmem', self.cptr(s), '0')
        if x == 'idx':
            s = self.strip(e['b'])
            if self.is_mut_ptr(s):
                b, o = self.mptr(s)
                if self.scale(b, e['b']) != 1: raise Unsupported('access wider than its memory')
                return ('mem', b, o, self.i64(e['i']))
            return ('cmem', self.cptr(s), self.i64(e['i']))
        if x == 'opcall' and e['op'] == '[]':
            b = self.place(e['a'][0]); return ('mem', b, 'off0()', self.i64(e['a'][1]))
        if x == 'mcall' and e['n'] == 'at':
            b = self.place(e['o']); return ('mem', b, 'off0()', self.i64(e['a'][0]))
        if x == 'mem':
            b = self.strip(e['b'])
            # bitfield of a union local: i.t.bK
            if b['x'] == 'mem':
                bb = self.strip(b['b'])
                if bb['x'] == 'var' and self.env.get(bb['id'], {}).get('k') == 'bfu':
                    v = self.env[bb['id']]
                    fld = [f for f in v['rec']['fields'] if f['n'] == b['n']][0]
                    return ('bf', v['n'], self.bfpos(fld['t']['name'], e['n']))
            if b['x'] == 'var' and self.env.get(b['id'], {}).get('k') == 'bfu':
                return ('bfall', self.env[b['id']]['n'], scal(unref(e['t'])))
            t = unref(e['t'])
            p = self.recplace(e['b']) + '.' + rn(e['n'])
            if t['k'] == 'ptr' and t['to']['k'] != 'rec': return ('cptr', p)
            return ('val', p)
        raise Unsupported('lvalue ' + x)

    def bfpos(self, rec, field):
        # several local records share the name "bf": all of them are extracted;
        # they must agree on the layout
        pos = None
        cands = [r for r in self.allrecs if r['name'] == rec]
        for r in cands:
            p = 0
            for f in r['fields']:
                if f['n'] == field:
                    if f['bits'] != 1: raise Unsupported('wide bitfield')
                    if pos is not None and pos != p: raise Unsupported('ambiguous bitfield layout')
                    pos = p
                p += f['bits']
        if pos is None: raise Unsupported('bitfield ' + field)
        return pos

    def lv_get(self, lv):
        if lv[0] in ('val', 'cptr'): return lv[1]
        if lv[0] == 'mem': return 'mrd(%s, %s, %s)' % (self.immarg(lv[1]), lv[2], lv[3])
        if lv[0] == 'cmem': return 'rd(%s, %s)' % (lv[1], lv[2])
        if lv[0] == 'bfall':
            if lv[2] == 'i32': return 'bf_i32(%s)' % lv[1]
            if lv[2] == 'u32': return lv[1]
            raise Unsupported('bit-field union read as ' + lv[2])
        if lv[0] == 'bf':
            self.helper('bf_get', 'pub fn bf_get(w: u32, k: u32) -> (r: u32) requires k < 32 ensures r == (w >> k) & 1 { (w >> k) & 1 }')
            return 'bf_get(%s, %d)' % (lv[1], lv[2])
        raise Unsupported('read of ' + lv[0])

    def lv_set(self, lv, v, ln):
        if lv[0] in ('val', 'cptr'): self.emit('%s = %s;' % (lv[1], v), ln)
        elif lv[0] == 'mem':
            self.emit('mwr(%s, %s, %s, %s);' % (self.mutarg(lv[1]), lv[2], lv[3], v), ln)
        elif lv[0] == 'bf' and v.startswith('(if ') and v.endswith(' { 1u32 } else { 0u32 })'): self.emit('%s = bf_setb(%s, %d, %s);' % (lv[1], lv[1], lv[2], v[4:-len(' { 1u32 } else { 0u32 })')]), ln)
        elif lv[0] == 'bf': self.emit('%s = bf_set(%s, %d, %s);' % (lv[1], lv[1], lv[2], v), ln)
        else: raise Unsupported('write to ' + lv[0])

    def setelem(self, l, r, ln):
        # object[index] = value where the pair [] = is an external function of object, index, value
        l = self.strip(l)
        if l['x'] != 'opcall' or l['op'] != '[]': return False
        k = (l['rec'] + '::operator[]' if l.get('rec') else l.get('fn', '')) + '='
        f = self.spec.externs.get(k)
        if not f: return False
        f, g = (f.split('+') + [''])[:2]
        v = self.rv(r); i = self.rv(l['a'][1])
        if f.endswith('!'): f = f[:-1]; o = []      # the object is part of the world the function is given
        else: o = self.objarg(l['a'][0]); o = ['&mut ' + o.lstrip('&')]
        self.emit('%s(%s);' % (f, ', '.join(o + [i, v] + (g.split(',') if g else []))), ln); return True

    def fieldptr(self, e):
        # pointer arithmetic on an externally modelled field
        e = self.strip(e)
        if e['x'] == 'bin' and e['op'] in '+-': return self.fieldptr(e['l']) or self.fieldptr(e['r'])
        return e['x'] == 'mem' and unref(e['t'])['k'] in ('ptr', 'arr') and self.isfieldext(e)

    def isfieldext(self, e):
        t = unref(e['b']['t'])
        if t['k'] == 'ptr': t = t['to']
        return t.get('name', '') + '.' + e['n'] in self.spec.externs

    def fieldext(self, e):
        # a field read through an external function: @@extern Class.field => fn
        t = unref(e['b']['t'])
        if t['k'] == 'ptr': t = t['to']
        f = self.spec.externs.get(t.get('name', '') + '.' + e['n'])
        if not f: return None
        f, g = (f.split('+') + [''])[:2]
        b = self.strip(e['b'])
        return '%s(%s)' % (f, ', '.join(([] if b['x'] == 'this' else [self.rv(b)]) + (g.split(',') if g else [])))

    # ---- effects --------------------------------------------------------
    def effect(self, e, ln):
        x = e['x']
        if x == 'cast':
            self.effect(e['e'], ln); return
        if x == 'const': return
        if x == 'throw':
            # the condition under which the function may end by an exception; nothing after it runs
            if getattr(self, 'inl', 0) or not self.sp.get('throw'): raise Unsupported('exception')
            self.emit('assert(%s); // throws' % ' '.join(self.sp['throw'].split()), ln); self.emit('never();')
            if self.rt: self.helper('unreached', '#[verifier::external_body] pub fn unreached<T>() -> (r: T) requires false { unimplemented!() }'); self.emit('return unreached();')
            return
        if x == 'opcall' and e['op'] == '=' and len(e['a']) == 2 and self.setelem(e['a'][0], e['a'][1], ln): return
        if x == 'asg' and e['op'] == '' and self.setelem(e['l'], e['r'], ln): return
        if x == 'asg':
            lt = unref(e['l']['t'])
            if lt['k'] == 'ptr':
                lv = self.lvalue(e['l'])
                if e['op'] == '':
                    if lv[0] == 'cptr': 
                        c = self.cptr(e['r']); self.emit('%s = %s;' % (lv[1], c), ln); return
                    if lv[0] == 'mptr':
                        b, o = self.mptr(e['r'])
                        if b[0] != lv[1]['base']: raise Unsupported('pointer re-based')
                        self.emit('%s = %s;' % (lv[1]['off'], o), ln); return
                else:
                    k = self.i64(e['r'])
                    if e['op'] == '-': self.neg(); k = 'neg_i64(%s)' % k
                    if lv[0] == 'cptr': self.emit('%s = cadd(%s, %s);' % (lv[1], lv[1], k), ln); return
                    if lv[0] == 'mptr': self.emit('%s = oadd(%s, %s);' % (lv[1]['off'], lv[1]['off'], self.scaled((lv[1]['base'], 0), e['l'], k)), ln); return
                if lv[0] == 'rec' and e['op'] == '' and self.env[self.strip(e['l'])['id']].get('copy'):
                    self.emit('%s = clone_rec(%s);' % (lv[1], self.recref(e['r'])), ln); return
                if lv[0] == 'val' and e['op'] == '' and lt['to']['k'] == 'rec' and not lt['to'].get('const') and self.strip(e['r'])['x'] in ('call', 'mcall'):
                    # a field holding a record by value in the model is replaced by a newly made one
                    self.emit('%s = %s;' % (lv[1], self.rv(self.strip(e['r']))), ln); return
                sl = self.strip(e['l']); fk = None
                if sl['x'] == 'mem' and e['op'] == '':
                    bt = unref(sl['b']['t']); fk = self.spec.externs.get((bt['to'] if bt['k'] == 'ptr' else bt).get('name', '') + '.' + sl['n'] + '=')
                if fk:      # a field pointing to an object: what the contract keeps of it
                    self.emit('%s = %s(%s);' % (lv[1], fk, self.recref(e['r'])), ln); return
                if lv[0] == 'mem' and e['op'] == '':
                    self.lv_set(lv, self.ptrval(e['r']), ln); return
                raise Unsupported('pointer assignment')
            s = scal(lt)
            if s is None:
                if e['op'] == '':
                    lv = self.lvalue(e['l'])
                    self.emit('%s = %s;' % (lv[1], self.recval(e['r'], lt)), ln); return
                raise Unsupported('assignment type')
            if e['op'] == '':
                r = self.rv(e['r'])
                pre = len(self.lines)
                lv = self.lvalue(e['l'])
                if len(self.lines) != pre and not re.match(r'^[\w\.]+$', r):
                    # the target had side effects: bind the value first (C++17 order)
                    t = self.fresh('v')
                    self.lines.insert(pre, '    ' * self.ind + 'let %s: %s = %s;' % (t, s, r)); r = t
                elif lv[0] == 'mem':
                    t = self.fresh('v'); self.emit('let %s: %s = %s;' % (t, s, r), ln); r = t
                self.lv_set(lv, r, ln)
                return
            ct = scal(e['ct']); clt = scal(e['clt'])
            r = self.rv(e['r'])
            lv = self.lvalue(e['l'])
            cur = self.cast_scalar(self.lv_get(lv), s, clt)
            v = self.arith(e['op'], cur, r, clt, scal(unref(e['r']['t'])), ct)
            v = self.cast_scalar(v, ct, s)
            if lv[0] == 'mem':
                t = self.fresh('v'); self.emit('let %s: %s = %s;' % (t, s, v), ln); v = t
            self.lv_set(lv, v, ln)
            return
        if x == 'un' and e['op'] in ('++', '--'):
            t = unref(e['e']['t'])
            if t['k'] == 'ptr':
                lv = self.lvalue(e['e']); d = '1' if e['op'] == '++' else '-1'
                if lv[0] == 'cptr': self.emit('%s = cadd(%s, %s);' % (lv[1], lv[1], d), ln)
                else:
                    if self.scale((lv[1]['base'], 0), e['e']) != 1: raise Unsupported('increment of a rescaled pointer')
                    self.emit('%s = oadd(%s, %s);' % (lv[1]['off'], lv[1]['off'], d), ln)
                return
            s = scal(t); lv = self.lvalue(e['e'])
            self.lv_set(lv, self.arith('+' if e['op'] == '++' else '-', self.lv_get(lv), '1' + s, s, s, s), ln)
            return
        if x == 'opcall' and e['op'] == '=' and len(e['a']) == 2 and scal(unref(e['a'][0]['t'])) and unref(e['a'][0]['t'])['k'] == 'rec':
            z = self.strip(e['a'][1])
            if z['x'] == 'str': import zlib; v = '%du64' % zlib.crc32(z['v'].encode())
            else: v = self.rv(e['a'][1])
            lv = self.lvalue(e['a'][0])
            if lv[0] == 'mem':
                tt = self.fresh('v'); self.emit('let %s = %s;' % (tt, v), ln); v = tt
            self.lv_set(lv, v, ln); return
        if x == 'opcall' and e['op'] == '=' and e.get('rec') in self.recs and e.get('id') not in self.byid and not e['rec'].startswith('std::') and not self.recs[e['rec']]['union'] and not self.extern(e):
            # implicit assignment of a record: every field
            v = self.recval(e['a'][1], unref(e['a'][1]['t']))
            self.emit('%s = %s;' % (self.recplace(e['a'][0]), v), ln); return
        if x == 'opcall' and e['op'] == '<<' and unref(e['t']).get('name') == 'mlir::InFlightDiagnostic' and not self.has_effect(e):
            return  # a diagnostic: its text is not part of any property
        if x == 'opcall' and e['op'] == '<<' and re.match(r'std::basic_(ostream|stringstream)<', unref(e['t']).get('name', '')) and not self.has_effect(e):
            return  # the text of an error message
        if x in ('call', 'mcall', 'opcall'):
            r = self.call(e, ln, want=False)
            if r is not None: self.emit(r + ';', ln)
            return
        if x == 'cond':
            self.emit('if %s {' % self.rv(e['c'])); self.ind += 1; self.effect(e['a'], ln); self.ind -= 1
            self.emit('} else {'); self.ind += 1; self.effect(e['b'], ln); self.ind -= 1; self.emit('}'); return
        if x == 'bin' and e['op'] == ',':
            self.effect(e['l'], ln); self.effect(e['r'], ln); return
        if not self.has_effect(e):
            return
        raise Unsupported('expression statement %s' % x)

    # ---- rvalues --------------------------------------------------------
    def lit(self, v, s):
        if s == 'bool': return 'true' if v != '0' else 'false'
        v = int(v)
        return '%d%s' % (v, s) if v >= 0 else '(%d%s)' % (v, s)

    def sub(self, e):
        """rvalue in its own block (for conditionally evaluated operands)"""
        save = self.lines; self.lines = []
        r = self.rv(e)
        pre = self.lines; self.lines = save
        if not pre: return r
        return '{ %s %s }' % (' '.join(re.sub(r'//.*', '', l).strip() for l in pre), r)

    def rv(self, e):
        if e is True: return 'true'
        if e is False: return 'false'
        x = e['x']
        t = unref(e['t'])
        s = scal(t)
        if x == 'const': return self.lit(e['v'], s)
        if x == 'flt': return self.fconst(e['bits'], s)
        if x == 'zero': return self.zero(s)
        if x == 'cast':
            ck = e['ck']
            if t['k'] == 'ptr' and not s: return self.cptr(e)
            if ck in ('LValueToRValue', 'NoOp'): return self.rv(e['e'])
            if ck in ('DerivedToBase', 'UncheckedDerivedToBase') and s and scal(unref(e['e']['t'])) == s: return self.rv(e['e'])
            if ck in ('IntegralCast', 'IntegralToBoolean', 'BooleanToSignedIntegral', 'IntegralToFloating', 'FloatingCast', 'FloatingToIntegral', 'FloatingToBoolean'):
                a = scal(unref(e['e']['t']))
                return self.cast_scalar(self.rv(e['e']), a, s)
            if ck == 'ConstructorConversion' or ck == 'UserDefinedConversion': return self.rv(e['e'])
            if ck == 'BitCast' and s and self.strip(e['e'])['x'] == 'mem' and self.isfieldext(self.strip(e['e'])): return self.rv(e['e'])
            if ck == 'PointerToBoolean':
                f = self.spec.externs.get(unref(e['e']['t'])['to'].get('name', '') + ' *.bool')
                if f: return '%s(%s)' % (f.split('+')[0], ', '.join([self.rv(self.strip(e['e']))] + f.split('+')[1:]))
            if ck == 'ToVoid': self.effect(e['e'], e.get('ln')); return '()'
            if ck == 'NullToPointer' and s and unref(e['t'])['to'].get('name', '') + ' */0' in self.spec.ctors: return self.spec.ctors[unref(e['t'])['to']['name'] + ' */0']
            raise Unsupported('cast ' + ck)
        if x == 'var':
            v = self.env.get(e['id'])
            if v is None: raise Unsupported('variable %s' % e['n'])
            if v['k'] in ('val', 'cptr'): return v['n']
            if v['k'] == 'valref': return '*' + v['n']
            if v['k'] == 'elem': return self.lv_get(self.lvalue(e))
            if v['k'] == 'rec': return v['n']
            raise Unsupported('use of %s' % e['n'])
        if x == 'opcall' and self.extern(e): return self.call(e, e.get('ln'), want=True)
        if x == 'mem':
            fe = self.fieldext(e)
            if fe: return fe
        if x in ('idx', 'mem') or (x == 'un' and e['op'] == '*') or (x == 'opcall' and e['op'] == '[]') or (x == 'mcall' and e['n'] == 'at'):
            if t['k'] == 'rec': return self.recplace(e)
            return self.lv_get(self.lvalue(e))
        if x == 'un':
            op = e['op']
            if op in ('++', '--'):
                if t['k'] == 'ptr': return self.cptr(e)
                lv = self.lvalue(e['e'])
                if e['post']:
                    tt = self.fresh('t'); self.emit('let %s: %s = %s;' % (tt, s, self.lv_get(lv)))
                    self.effect(e, e.get('ln')); return tt
                self.effect(e, e.get('ln')); return self.lv_get(lv)
            if op == '!': return '(!%s)' % self.rv(e['e'])
            if op == '+': return self.rv(e['e'])
            if op == '-':
                if s[0] == 'F': return self.fop('fneg', [self.rv(e['e'])], s)
                if s[0] == 'u': raise Unsupported('unsigned negation')
                return '(0%s - %s)' % (s, self.rv(e['e']))
            if op == '~':
                n = self.helper('not_' + s, 'pub fn not_%s(x: %s) -> (r: %s) ensures r == !x { !x }' % (s, s, s))
                return '%s(%s)' % (n, self.rv(e['e']))
            if op == '&' and unref(e['e']['t'])['k'] == 'rec' and scal(unref(e['e']['t'])) and scal(unref(e['e']['t'])) in VALUES.values(): return self.rv(e['e'])
            if op == '&': return self.rv_addr(e)
            raise Unsupported('unary ' + op)
        if x == 'bin':
            op = e['op']
            if op in ('&&', '||'):
                return '(%s %s %s)' % (self.rv(e['l']), op, self.sub(e['r']))
            lt = unref(e['l']['t']); 
            if lt['k'] == 'ptr':
                if op in ('==', '!='): return self.ptrcmp(e)
                if op in ('+', '-') and unref(e['t'])['k'] == 'ptr': return self.cptr(e)
                raise Unsupported('pointer operator ' + op)
            return self.arith(op, self.rv(e['l']), self.rv(e['r']), scal(lt), scal(unref(e['r']['t'])), s)
        if x == 'cond':
            c = e['c']
            sc = self.simp_cond(c)
            if sc is True: return self.rv(e['a'])
            if sc is False: return self.rv(e['b'])
            return '(if %s { %s } else { %s })' % (self.rv(sc), self.sub(e['a']), self.sub(e['b']))
        if x == 'asg':
            self.effect(e, e.get('ln'))
            return self.lv_get(self.lvalue(e['l']))
        if x in ('call', 'mcall', 'opcall'):
            return self.call(e, e.get('ln'), want=True)
        if x == 'ctor' and t['k'] == 'rec' and s:
            if e['copy']: return self.rv(e['a'][0])
            if not e['a']: return self.spec.ctors.get(t['name'] + '/0', 'havoc()')
            return self.ctorval(e)
        if x == 'ctor':
            if len(e['a']) == 1 and scal(unref(e['a'][0]['t'])) and s: return self.rv(e['a'][0])
            return self.recval(e, t)
        if x == 'init' and len(e['a']) == 1 and s: return self.rv(e['a'][0])
        if x == 'init' and t['k'] == 'rec' and '%s/init' % t['name'] in self.spec.ctors: return '%s(%s)' % (self.spec.ctors[t['name'] + '/init'], ', '.join('0u64' if z['x'] in ('null', 'zero') else self.rv(z) for z in map(nocast, e['a'])))
        if x == 'fn':   # a function as a value: a hash of its name
            import zlib
            k = e['fn'] + ('<%s>' % ','.join(e['targs']) if e.get('targs') else ''); return '%du64 /* %s */' % (zlib.crc32(k.encode()), k)
        if x == 'str':
            import zlib
            return '%du64 /* "%s" */' % (zlib.crc32(e['v'].encode()), e['v'])
        if x == 'null': return '()'   # std::nullptr_t
        if x == 'ilist': return 'sl_lit%d(%s)' % (len(e['a']), ', '.join(self.rv(z) for z in e['a']))
        raise Unsupported('expression %s %s' % (x, e.get('k', '') + e.get('src', '')))

    def rv_addr(self, e): raise Unsupported('address-of')
    def ptrcmp(self, e):
        if e['r']['x'] == 'null' or (e['r']['x'] == 'cast' and e['r']['ck'] == 'NullToPointer'):
            lt = unref(e['l']['t'])
            f = lt['k'] == 'ptr' and self.spec.externs.get(lt['to'].get('name', '') + ' *.null')
            if f: return '(%s%s(%s))' % ('!' if e['op'] == '!=' else '', f, self.rv(e['l']))
            return 'true' if e['op'] == '!=' else 'false'
        raise Unsupported('pointer comparison')

    def fop(self, name, args, s, ret=None):
        n = '%s_%s' % (name, s)
        ret = ret or s
        if s == 'F64':
            # doubles are treated as mathematical reals
            OP = {'add': 'a.v@ + b.v@', 'sub': 'a.v@ - b.v@', 'mul': 'a.v@ * b.v@', 'fneg': '0real - a.v@', 'lt': 'a.v@ < b.v@', 'le': 'a.v@ <= b.v@', 'eq': 'a.v@ == b.v@', 'div': 'a.v@ / b.v@', 'max': 'if a.v@ < b.v@ { b.v@ } else { a.v@ }', 'min': 'if b.v@ < a.v@ { b.v@ } else { a.v@ }'}
            if name not in OP: raise Unsupported('double ' + name)
            sig = ', '.join('%s: F64' % 'abc'[i] for i in range(len(args)))
            res = 'r == (%s)' % OP[name] if ret == 'bool' else 'r.v@ == (%s)' % OP[name]
            if self.spec.rounded and name in ('add', 'sub', 'mul', 'div'):
                # IEEE double arithmetic: the exact result, rounded (see RNDPRE)
                ex = {'mul': 'rmul(a.v@, b.v@)', 'div': 'rdiv(a.v@, b.v@)'}.get(name, OP[name])
                res = 'rnd_of(r.v@, %s)' % ex
                if name != 'div': res = res + ', whole(a.v@) && whole(b.v@) && rabs(%s) <= 9007199254740992real ==> r.v@ == %s && whole(r.v@)' % (ex, ex)
                if name == 'mul': res = res + ', whole(a.v@) && single(b.v@) && rabs(a.v@) <= 536870912real ==> r.v@ == %s' % ex
            if name == 'div': res = 'b.v@ != 0real ==> ' + res
            self.helper(n, '#[verifier::external_body] pub fn %s(%s) -> (r: %s) ensures %s { unimplemented!() }' % (n, sig, ret, res))
            return '%s(%s)' % (n, ', '.join(args))
        ps = ['abc'[i] for i in range(len(args))]
        sig = ', '.join('%s: %s' % (p, s) for p in ps)
        self.helper(n, 'pub uninterp spec fn s%s(%s) -> %s;\n#[verifier::external_body] pub fn %s(%s) -> (r: %s) ensures r == s%s(%s) { unimplemented!() }' % (n, sig, ret, n, sig, ret, n, ', '.join(ps)))
        return '%s(%s)' % (n, ', '.join(args))

    CMP = {'<': 'lt', '>': 'gt', '<=': 'le', '>=': 'ge', '==': 'eq', '!=': 'ne'}
    def arith(self, op, a, b, ta, tb, tr):
        if ta[0] == 'F':
            if op in self.CMP:
                c = self.CMP[op]
                if c == 'gt': return self.fop('lt', [b, a], ta, 'bool')
                if c == 'ge': return self.fop('le', [b, a], ta, 'bool')
                if c == 'ne': return '(!%s)' % self.fop('eq', [a, b], ta, 'bool')
                return self.fop(c, [a, b], ta, 'bool')
            return self.fop({'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[op], [a, b], ta)
        if op in self.CMP: return '(%s %s %s)' % (a, op, b)
        if ta == 'bool':
            if op == '|': return '(%s | %s)' % (a, b)
            if op == '&': return '(%s & %s)' % (a, b)
            raise Unsupported('bool ' + op)
        if op == '*' and ta[0] == 'i':
            # a product with -1 is a negation (linear for the solver, same overflow)
            for x, y in ((a, b), (b, a)):
                if re.fullmatch(r'\(-1i\d+\)', x): return '(0%s - %s)' % (ta, y)
        if op in ('+', '-', '*'): return '(%s %s %s)' % (a, op, b)
        if op in ('/', '%'):
            if ta[0] == 'u': return '(%s %s %s)' % (a, op, b)
            n = ('div_' if op == '/' else 'rem_') + ta
            lo = rng(ta)[0]
            sp = 'tdiv' if op == '/' else 'trem'
            self.helper(n, '#[verifier::external_body] pub fn %s(a: %s, b: %s) -> (r: %s) requires b != 0, !(a == %s::MIN && b == -1) ensures r == %s(a as int, b as int), (a >= 0 && b > 0) ==> r == (a as int) %s (b as int) { unimplemented!() }' % (n, ta, ta, ta, ta, sp, op))
            return '%s(%s, %s)' % (n, a, b)
        if op in ('&', '|', '^'):
            n = {'&': 'and_', '|': 'or_', '^': 'xor_'}[op] + ta
            self.helper(n, 'pub fn %s(a: %s, b: %s) -> (r: %s) ensures r == a %s b { a %s b }' % (n, ta, ta, ta, op, op))
            return '%s(%s, %s)' % (n, a, b)
        if op in ('<<', '>>'):
            n = ('shl_' if op == '<<' else 'shr_') + ta
            w = ta[1:]
            bb = b if tb == 'u32' else None
            # shift count must lie in [0, width)
            if op == '<<':
                sp = 'sshl_%s' % ta
                self.helper(n, 'pub open spec fn %s(a: %s, b: int) -> %s { (((a as u%s) << (b as u%s)) as %s) }\n#[verifier::external_body] pub fn %s(a: %s, b: i64) -> (r: %s) requires 0 <= b < %s ensures r == %s(a, b as int) { unimplemented!() }' % (sp, ta, ta, w, w, ta, n, ta, ta, w, sp))
            else:
                sp = 'sshr_%s' % ta
                self.helper(n, 'pub open spec fn %s(a: %s, b: int) -> %s { (a >> (b as %s)) }\n#[verifier::external_body] pub fn %s(a: %s, b: i64) -> (r: %s) requires 0 <= b < %s ensures r == %s(a, b as int) { unimplemented!() }' % (sp, ta, ta, ta, n, ta, ta, w, sp))
            return '%s(%s, %s)' % (n, a, self.cast_int(b, tb, 'i64'))
        raise Unsupported('operator ' + op)

    # ---- calls ----------------------------------------------------------
    def arg(self, a, pt):
        """argument for a value / pointer parameter; returns rust text (may be several)"""
        u = unref(pt)
        isref = pt['k'] == 'ref'
        if u['k'] == 'ptr':
            z = a
            while z['x'] == 'cast': z = z['e']
            if z['x'] == 'mem' and self.isfieldext(z): return self.fieldext(z)
        if u['k'] == 'ptr' and u['to']['k'] != 'rec':
            if u['to']['k'] == 'ptr':
                z = self.strip(a)
                if z['x'] == 'un' and z['op'] == '&':
                    z = self.strip(z['e'])
                    if z['x'] == 'var' and self.env[z['id']]['k'] == 'cptr': return '&mut ' + self.env[z['id']]['n']
            z = self.strip(a)
            if z['x'] == 'str':
                import zlib
                return '%du64 /* "%s" */' % (zlib.crc32(z['v'].encode()), z['v'])
            if z['x'] == 'cond' and all(self.strip(z[q])['x'] == 'str' for q in 'ab'):
                return '(if %s { %s } else { %s })' % (self.rv(z['c']), self.arg(z['a'], pt), self.arg(z['b'], pt))
            if u['to']['k'] == 'ptr' or u['to'].get('const'): return self.cptr(a)
            if z['x'] == 'var' and self.env.get(z['id'], {}).get('k') == 'valptr': return self.env[z['id']]['n']
            if z['x'] == 'un' and z['op'] == '&' and scal(u['to']):
                y = self.strip(z['e'])
                if y['x'] in ('var', 'mem') and not (y['x'] == 'var' and self.env[y['id']]['k'] == 'mem'):
                    lv = self.lvalue(y)
                    if lv[0] == 'val': return '&mut ' + (lv[1] if not lv[1].startswith('*') else lv[1])
            b, o = self.mptr(a)
            if isref:
                v = self.env[self.strip(a)['id']]
                if v.get('offref'): return '%s, %s' % (self.mutarg(b), v['offref'])
                return '%s, &mut %s' % (self.mutarg(b), o)
            return '%s, %s' % (self.mutarg(b), o)
        if u['k'] == 'rec' and scal(u) and (not isref or u.get('const') or pt['to'].get('const')): return self.rv(a)
        if u['k'] == 'rec' and scal(u) and self.strip(a)['x'] in ('call', 'mcall', 'opcall') and self.strip(a).get('t', {}).get('k') == 'rec': return self.rv(a)
        if u['k'] == 'rec' and scal(u) and self.strip(a)['x'] == 'ctor': return self.rv(a)
        if u['k'] == 'ptr' and u['to']['k'] == 'rec' and scal(u['to']):
            z = self.strip(a)
            if z['x'] == 'var' and self.env.get(z['id'], {}).get('k') == 'valptr': return self.env[z['id']]['n']
            if z['x'] == 'un' and z['op'] == '&' and not u['to'].get('const') and u['to']['name'] + ' *' not in VALUES and self.strip(z['e'])['x'] == 'var' and self.env[self.strip(z['e'])['id']]['k'] == 'val' and self.sp.get('valaddr'): return '&mut ' + self.env[self.strip(z['e'])['id']]['n']
            if z['x'] == 'un' and z['op'] == '&' and not u['to'].get('const') and self.sp.get('valaddr') and self.strip(z['e'])['x'] == 'mem':
                lv = self.lvalue(z['e'])
                if lv[0] == 'val': return '&mut ' + lv[1]
            if z['x'] == 'un' and z['op'] == '&' and not u['to'].get('const') and self.strip(z['e'])['x'] == 'mem' and self.strip(self.strip(z['e'])['b'])['x'] == 'this' and self.sp.get('nothis'): return '&mut ' + self.rv(self.strip(z['e']))
            return self.rv(z)
        if (u['k'] == 'rec' or u['k'] == 'ptr') and not scal(u):
            to = u if u['k'] == 'rec' else u['to']
            s = self.strip(a)
            if isref and u['k'] == 'rec' and (u['name'].startswith('std::vector<') or u['name'] in self.spec.vectors) and s['x'] == 'var' and self.env.get(s['id'], {}).get('k') == 'mem':
                b = self.place(s)
                return (self.immarg if u.get('const') or pt['to'].get('const') else self.mutarg)(b)
            if s['x'] in ('ctor',): return '&' + self.recval(s, to)
            if s['x'] in ('call', 'mcall') and s.get('n') != 'get': return ('&' if to.get('const') or to.get('name') != 'tflite::CpuBackendContext' else '&mut ') + self.rv(s)
            const = to.get('const') or (u['k'] == 'rec' and not isref)
            if u['k'] == 'ptr' and s['x'] == 'un' and s['op'] == '&': s = self.strip(s['e'])
            if u['k'] == 'ptr' and s['x'] == 'mcall' and self.extern(s): return ('&' if const else '&mut ') + self.rv(s)     # what an object holds, by value
            p = self.recplace(s)
            y = s
            while y['x'] == 'un' and y['op'] == '*': y = self.strip(y['e'])
            isr = s['x'] == 'this' or (y['x'] == 'var' and self.env[y['id']].get('ref'))
            if isr: return p
            return ('&' if const else '&mut ') + p
        if isref and not u.get('const'):
            if self.strip(a)['x'] in ('flt', 'int', 'bool') or self.strip(a)['x'] in ('call', 'mcall') and self.strip(a).get('t', {}).get('k') not in ('ref', None): return self.rv(a)
            lv = self.lvalue(a)
            if lv[0] == 'val':
                return lv[1][1:] if lv[1].startswith('*') else '&mut ' + lv[1]
            raise Unsupported('reference argument')
        return self.rv(a)

    def call(self, e, ln, want):
        fn = e.get('fn', '')
        h = self.intrinsic(e, fn, ln, want)
        if h is not NotImplemented: return h
        k = fn if not e.get('rec') else e['rec'] + '::' + e.get('n', fn.split('::')[-1])
        ek = self.extern(e)
        f = self.byid.get(e.get('id')) if not ek else None
        if f is not None:
            sk = self.speckey(f)
            if sk:
                sp = self.spec.fns[sk]
                return self.emit_call(e, f, sp, want)
            return self.inline(e, f, ln, want)
        # external function with an assumed contract
        if ek:
            args = []
            if ek.endswith(' lambda'):
                # a function handed to a method that runs it once, between two steps of its own
                b4, af, _ = ek.split(); o = self.objarg(e['o']); z = self.strip(e['a'][0])
                while z['x'] == 'ctor' and len(z['a']) == 1: z = self.strip(z['a'][0])
                if z['x'] != 'lambda' or z['params'] or len(e['a']) != 1 or self.count_ret(z['body']): raise Unsupported('function object')
                self.emit('%s(&mut %s);' % (b4, o), ln); self.emit('{', ln); self.ind += 1; self.block(z['body']); self.ind -= 1; self.emit('}')
                return '%s(&mut %s)' % (af, o)
            if e['x'] == 'mcall' and not ek.endswith(' -this'): args.append(self.objarg(e['o']))
            rest = e['a']
            if e['x'] == 'opcall' and e.get('rec'): args.append(self.objarg(rest[0])); rest = rest[1:]
            ek = re.sub(' -this$', '', ek)
            if ek.endswith(' &mut'):
                ek = ek[:-5]
                if args[0].startswith('&'): args[0] = '&mut ' + args[0][1:]
                elif re.match(r'^\w+$', args[0]):
                    oz = self.strip(e['o']) if e['x'] == 'mcall' else {'x': ''}
                    ov = self.env.get(oz['id'], {}) if oz['x'] == 'var' else {}
                    if not (ov.get('k') == 'rec' and ov.get('ref') and ov.get('n') == args[0]): args[0] = '&mut ' + args[0]
                elif re.match(r'^\*\w+$', args[0]): args[0] = args[0][1:]
            # a function object the contract drops is not translated (its text is not part of what is proved)
            gone = re.search(r' -(\d+)( byval)?$', ek)
            def dropped(i, a):
                z = self.strip(a)
                while z['x'] == 'ctor' and len(z['a']) == 1: z = self.strip(z['a'][0])
                return gone and int(gone.group(1)) == i and z['x'] in ('lambda', 'null')
            more = ['()' if dropped(i, a) else self.arg(a, p) for i, (a, p) in enumerate(zip(rest, e['pt']))]
            if ek.endswith(' byval'): ek = ek[:-6]; more = [z[5:] if z.startswith('&mut ') else z for z in more]
            args += more
            if '+' in ek:
                ek, g = ek.split('+'); args += g.split(',')
            m = re.match(r'^(.*\S)\s+-(\d+)$', ek)
            if m: ek = m.group(1); del args[int(m.group(2)) + (e['x'] == 'mcall')]
            if ek.endswith('<>'): ek = ek[:-2] + '::<%s>' % ', '.join(self.elem_type(z) for z in e['targs'])
            return '%s(%s)' % (ek, ', '.join(args))
        raise Unsupported('call to %s has no contract' % (k or e))

    def extern(self, e):
        fn = e.get('fn', '')
        k = fn if not e.get('rec') else e['rec'] + '::' + e.get('n', fn.split('::')[-1])
        n = '/' + str(len(e['a']))
        return (e.get('targs') and self.spec.externs.get('%s<%s>%s' % (k, ','.join(e['targs']), n))) or self.spec.externs.get(k + n) or self.spec.externs.get(k)

    def objarg(self, o):
        # a method of a base class called on an object represented by a value:
        # the value stands for the object and for its base subobject
        while o['x'] == 'cast' and o.get('ck') in ('UncheckedDerivedToBase', 'DerivedToBase') and scal(unref(o['e']['t'])) and unref(o['e']['t'])['k'] == 'rec': o = o['e']
        if scal(unref(o['t'])) and unref(o['t'])['k'] in ('rec', 'ptr'): return self.rv(o)
        s = self.strip(o)
        if s['x'] == 'var' and unref(s['t'])['k'] == 'rec' and scal(unref(s['t'])): return self.rv(s)
        if unref(s['t'])['k'] == 'rec' and (unref(s['t'])['name'].startswith('std::vector<') or unref(s['t'])['name'] in self.spec.vectors): return self.immarg(self.place(s))
        if s['x'] in ('call', 'mcall', 'opcall'): return '&' + self.rv(s)
        p = self.recplace(s)
        if s['x'] == 'var' and self.env[s['id']].get('ref') or s['x'] == 'this': return p
        return '&' + p

    def emit_call(self, e, f, sp, want):
        args = []
        if e['x'] == 'mcall' and not f.get('static') and not sp.get('nothis'):
            s = self.strip(e['o']); p = self.recplace(s)
            isr = (s['x'] == 'this' and not self.thisowned) or (s['x'] == 'var' and self.env[s['id']].get('ref'))
            args.append(p if isr else ('&' if f.get('const') else '&mut ') + p)
        for a, p in zip(e['a'], f['params']): args.append(self.arg(a, p['t']))
        self.emit_proof(self.sp.get('calls', {}).get(sp['as']))
        # ghost arguments are passed by name
        for g in sp.get('ghost', []):
            gn = g.split(':')[0].strip()
            args.append(self.sp.get('ghostargs', {}).get(sp['as'] + '.' + gn, gn))
        return '%s(%s)' % (sp['as'], ', '.join(args))

    def inline(self, e, f, ln, want):
        """functions without a contract are expanded at the call site"""
        if getattr(self, 'inl', 0) > 6: raise Unsupported('recursive inlining of ' + f['q'])
        self.inl = getattr(self, 'inl', 0) + 1
        try:
            body = f['body']['b']
            body = [s for s in body if s['s'] != 'null']
            rets = self.count_ret(f['body'])
            # fresh names for the callee's variables
            saved = dict(self.env)
            tag = self.fresh('in')
            stm = []
            if e['x'] == 'mcall' and not f.get('static'):
                raise Unsupported('inlining of method ' + f['q'])
            if rets == 0 or (rets == 1 and body and body[-1]['s'] == 'ret'):
                for p, a in zip(f['params'], e['a']): self.bind_inline(p, a, tag)
                old = self.cur
                for s in body[:-1] if rets else body:
                    self.rename_decls(s, tag); self.stmt(s)
                r = None
                if rets:
                    rs = body[-1]
                    if rs['e'] is not None:
                        ft = unref(f['ret'])
                        if scal(ft):
                            r = self.fresh('r'); self.emit('let %s: %s = %s;' % (r, scal(ft), self.rv(rs['e'])), ln)
                        elif ft['k'] == 'ptr' and ft['to'].get('const'):
                            r = self.fresh('r'); self.emit('let %s = %s;' % (r, self.cptr(rs['e'])), ln)
                        else: raise Unsupported('inlined return type')
                return r
            # general case: structured early returns of a scalar
            ft = unref(f['ret'])
            if f['ret']['k'] != 'void' and scal(ft) and not self.contains_loop(f['body']):
                for p, a in zip(f['params'], e['a']): self.bind_inline(p, a, tag)
                r = self.fresh('r')
                txt = self.ret_expr(body, tag)
                self.emit('let %s: %s = %s;' % (r, scal(ft), txt), ln)
                return r
            raise Unsupported('inlining of %s' % f['q'])
        finally:
            self.inl -= 1

    def contains_loop(self, s):
        return any(self.contains(s, k) for k in ('for', 'while', 'do', 'range', 'switch'))

    def ret_expr(self, body, tag):
        """value of a loop-free statement list ending in return, as a block expression"""
        save = self.lines; self.lines = []
        res = None
        for i, s in enumerate(body):
            if s['s'] == 'null': continue
            if s['s'] == 'ret': res = self.rv(s['e']); break
            if s['s'] == 'block':
                self.lines = save; return self.ret_expr(s['b'] + body[i+1:], tag)
            if s['s'] == 'if' and self.count_ret(s) > 0:
                c = self.simp_cond(s['c'])
                then = s['a']['b'] if s['a']['s'] == 'block' else [s['a']]
                els = [] if not s['b'] else (s['b']['b'] if s['b']['s'] == 'block' else [s['b']])
                rest = body[i+1:]
                if c is True: res = self.ret_expr(then + rest, tag); break
                if c is False: res = self.ret_expr(els + rest, tag); break
                ce = self.rv(c)
                env0 = dict(self.env)
                a = self.ret_expr(then + rest, tag)
                self.env = dict(env0)
                b = self.ret_expr(els + rest, tag)
                self.env = env0
                res = '(if %s { %s } else { %s })' % (ce, a, b); break
            self.rename_decls(s, tag); self.stmt(s)
        pre = self.lines; self.lines = save
        if res is None:
            # control can only end here when the function has no value to give: that it never does is an obligation
            self.helper('falls_off', '#[verifier::external_body] pub fn falls_off<T>() -> (r: T) requires false { unimplemented!() }')
            res = 'falls_off()'
        if not pre: return res
        return '{ %s %s }' % (' '.join(re.sub(r'//.*', '', l).strip() for l in pre), res)

    def count_ret(self, s):
        if isinstance(s, dict): return (1 if s.get('s') == 'ret' else 0) + sum(self.count_ret(v) for v in s.values())
        if isinstance(s, list): return sum(self.count_ret(v) for v in s)
        return 0

    def rename_decls(self, s, tag):
        if isinstance(s, dict):
            if s.get('s') == 'decl':
                for d in s['d']:
                    if not d['n'].endswith(tag): d['n'] = d['n'].split('__in')[0] + '__' + tag
            for v in s.values(): self.rename_decls(v, tag)
        elif isinstance(s, list):
            for v in s: self.rename_decls(v, tag)

    def bind_inline(self, p, a, tag):
        t = p['t']; u = unref(t); isref = t['k'] == 'ref'
        n = rn((p['n'] or 'u') + '__' + tag)
        if u['k'] == 'ptr' and u['to']['k'] != 'rec':
            if u['to']['k'] == 'ptr' or u['to'].get('const'):
                self.emit('let mut %s = %s;' % (n, self.cptr(a))); self.env[p['id']] = {'k': 'cptr', 'n': n}; return
            if isref and not t.get('const'):
                self.env[p['id']] = self.env[self.strip(a)['id']]; return
            b, o = self.mptr(a)
            self.emit('let mut %s_o = %s;' % (n, o)); self.env[p['id']] = {'k': 'mptr', 'base': b[0], 'bref': b[1], 'off': n + '_o'}; return
        if u['k'] == 'rec' or u['k'] == 'ptr':
            s = self.strip(a)
            if u['k'] == 'ptr' and s['x'] == 'un' and s['op'] == '&': s = self.strip(s['e'])
            if s['x'] == 'var': self.env[p['id']] = self.env[s['id']]; return
            if s['x'] in ('mem', 'this'):
                self.env[p['id']] = {'k': 'rec', 'n': self.recplace(s), 'ref': s['x'] == 'this'}; return
            if scal(u) and not (isref and not u.get('const')):
                self.emit('let mut %s: %s = %s;' % (n, scal(u), self.rv(a))); self.env[p['id']] = {'k': 'val', 'n': n}; return
            raise Unsupported('inlined record argument')
        if isref and not u.get('const'):
            s = self.strip(a)
            if s['x'] == 'var': self.env[p['id']] = self.env[s['id']]; return
            raise Unsupported('inlined reference argument')
        self.emit('let mut %s: %s = %s;' % (n, scal(u), self.rv(a)))
        self.env[p['id']] = {'k': 'val', 'n': n}

    # ---- primitives -----------------------------------------------------
    def intrinsic(self, e, fn, ln, want):
        if fn in ('memcpy', 'std::memcpy') and self.spec.externs.get(fn + '/3'): return NotImplemented
        a = e.get('a', [])
        if fn == 'lcv_dcheck':
            if a[0]['x'] == 'const' and a[0]['v'] != '0': return None
            self.tmp += 1
            self.emit('let dc__%d: bool = %s;' % (self.tmp, self.rv(a[0])), ln)
            self.emit('assert(dc__%d);' % self.tmp, ln); return None
        if fn.startswith('ruy::profiler'): return None
        if fn in ('std::min', 'std::max'):
            s = scal(unref(e['t']))
            if s[0] == 'F': return self.fop(fn[5:], [self.rv(a[0]), self.rv(a[1])], s)
            n = fn[5:] + '_' + s
            c = '<' if fn == 'std::max' else '<'
            body = 'if a < b { b } else { a }' if fn == 'std::max' else 'if b < a { b } else { a }'
            self.helper(n, 'pub fn %s(a: %s, b: %s) -> (r: %s) ensures r == (%s) { %s }' % (n, s, s, s, body, body))
            return '%s(%s, %s)' % (n, self.rv(a[0]), self.rv(a[1]))
        if fn == 'std::fill':
            b, o1 = self.mptr(a[0]); b2, o2 = self.mptr(a[1])
            if b != b2: raise Unsupported('std::fill over two objects')
            v = self.rv(a[2])
            self.emit('std_fill(%s, %s, %s, %s);' % (self.mutarg(b), o1, o2, v), ln); return None
        if fn in ('memcpy', 'std::memcpy', '__builtin_memcpy'):
            return self.memcpy(a, ln)
        if fn in ('memset', 'std::memset', '__builtin_memset'): return self.memset(a, ln)
        if fn == '__builtin_expect':
            return self.rv(a[0])
        if fn == 'std::make_unique' and not self.extern(e):
            rec = e['targs'][0]
            c = [f for l in self.fns.values() for f in l if f.get('rec') == rec and self.is_ctor(f) and len(f['params']) == len(a)]
            if len(c) != 1 or self.speckey(c[0]) is None: raise Unsupported('construction of ' + rec)
            return self.emit_call(dict(e, x='call'), c[0], self.spec.fns[self.speckey(c[0])], True)
        if fn == 'std::move': return self.rv(a[0])
        if e.get('rec', '').startswith('std::unique_ptr<'):
            o = e['o'] if e['x'] == 'mcall' else a[0]
            p = self.nullable(o)
            if p:
                if e.get('n') == 'operator bool': return p + '__set'
                if e.get('n') == 'reset' and (not a or a[0]['x'] in ('zero', 'null')): self.emit('%s__set = false;' % p, ln); return None
                if e['x'] == 'opcall' and e['op'] == '=':
                    z = self.strip(a[1])
                    if unref(z['t'])['k'] == 'null' or z['x'] in ('null', 'zero'): self.emit('%s__set = false;' % p, ln); return None
                    while z['x'] == 'call' and z.get('fn') == 'std::move': z = self.strip(z['a'][0])
                    if z['x'] not in ('call', 'mcall'): raise Unsupported('owning pointer assigned from ' + z['x'])
                    self.emit('%s = %s;' % (p, self.rv(z)), ln); self.emit('%s__set = true;' % p, ln); return None
        if e['x'] == 'mcall' and e.get('rec') == 'std::bitset<32>' and e['n'] == 'count':
            o = e['o']
            while o['x'] == 'cast': o = o['e']
            if o['x'] == 'ctor' and len(o['a']) == 1: return 'bitset_count32(%s)' % self.rv(o['a'][0])
            raise Unsupported('stored bitset')
        if e['x'] == 'mcall' and e.get('rec', '').startswith('std::vector<') and not (scal(unref(e['o']['t'])) and self.extern(e)):
            b = self.place(e['o'])
            if e['n'] == 'size': return '(mem_len(%s) as u64)' % self.immarg(b)
            if e['n'] == 'resize':
                et = self.elem_type(re.match(r'std::vector<(.*)>$', e['rec']).group(1))
                self.emit('mem_resize(%s, %s, %s);' % (self.mutarg(b), self.rv(a[0]), self.zero(et)), ln); return None
            if e['n'] == 'push_back':
                t = self.fresh('v'); self.emit('let %s = %s;' % (t, self.rv(a[0])), ln)
                self.emit('mem_push(%s, %s);' % (self.mutarg(b), t), ln); return None
            if e['n'] == 'assign':
                v = self.ptrval(a[1]) if self.strip(a[1])['t']['k'] == 'ptr' else self.rv(a[1])
                self.emit('mem_assign(%s, %s, %s);' % (self.mutarg(b), self.rv(a[0]), v), ln); return None
        return NotImplemented

    def ptrval(self, e):
        # a pointer stored in memory: which object, and the offset in it
        s = self.strip(e)
        if s['x'] == 'mcall' and s['n'] == 'data': return 'mk_ptr(obj_%s(), off0())' % self.place(s['o'])[0].split('.')[-1]
        root = s
        while root['x'] in ('bin', 'cast'): root = root['l'] if root['x'] == 'bin' else root['e']
        if root['x'] == 'var' and self.env[root['id']]['k'] == 'cptr': return 'mk_ptrc(obj_%s(), %s)' % (self.env[root['id']]['n'], self.cptr(s))
        raise Unsupported('stored pointer')

    def memcpy(self, a, ln):
        def unvoid(z):
            while z['x'] == 'cast' and z['ck'] in ('BitCast', 'NoOp'): z = z['e']
            return z
        d, s = unvoid(a[0]), unvoid(a[1])
        dt = unref(d['t']); 
        el = dt['to'] if dt['k'] == 'ptr' else dt['of']
        sz = {'i8': 1, 'u8': 1, 'bool': 1, 'i16': 2, 'i32': 4, 'u32': 4, 'F32': 4}[scal(el)]
        n = a[2]
        cnt = self.elems(n, sz)
        b, o = self.mptr(d)
        self.emit('memcpy_n(%s, %s, %s, %s);' % (self.mutarg(b), o, self.cptr(s), cnt), ln)
        return None

    def memset(self, a, ln):
        d = a[0]
        while d['x'] == 'cast' and d['ck'] in ('BitCast', 'NoOp'): d = d['e']
        dt = unref(d['t']); el = dt['to'] if dt['k'] == 'ptr' else dt['of']
        r = self.strip(a[1])
        if r['x'] != 'const' or r['v'] != '0': raise Unsupported('memset to a nonzero byte')
        et = scal(el); cnt = self.elems(a[2], self.SZ[et])
        b, o = self.mptr(d)
        t = self.fresh('p'); self.emit('let %s = %s;' % (t, o))
        self.emit('std_fill(%s, %s, oadd(%s, %s), %s);' % (self.mutarg(b), t, t, self.cast_int(cnt, 'u64', 'i64') if not cnt.endswith('u64') else cnt[:-3] + 'i64', self.zero(et)), ln)
        return None

    def elems(self, n, sz):
        """element count of a byte count:  e * sizeof(T)"""
        n = self.strip(n)
        if n['x'] == 'const':
            v = int(n['v'])
            if v % sz: raise Unsupported('partial element copy')
            return '%du64' % (v // sz)
        if n['x'] == 'bin' and n['op'] == '*':
            for x, y in ((n['l'], n['r']), (n['r'], n['l'])):
                if y['x'] == 'const' and int(y['v']) == sz:
                    if sz == 1: return self.rv(x)
                    # obligation: the byte count does not wrap
                    return '(%s)' % self.rv(x)
        if sz == 1: return self.rv(n)
        self.helper('bytes_div', 'pub fn bytes_div(n: u64, k: u64) -> (r: u64) requires k > 0, n % k == 0 ensures r == n / k { n / k }')
        return 'bytes_div(%s, %d)' % (self.rv(n), sz)

class Spec:
    """spec file parser"""
    def __init__(self, text, subst=None):
        self.fns = {}; self.recs = {}; self.rnames = {}; self.ctors = {}; self.externs = {}; self.ranges = {}; self.prelude = ''; self.assumes = []; self.order = []; self.ghostfields = {}; self.own = set(); self.nullable = set(); self.rounded = False; self.ptrfns = {}; self.values = {}; self.vectors = {}; self.consts = {}
        cur = None; sect = None; L = None
        for line in text.split('\n'):
            if line.startswith('##'): continue
            m = re.match(r'^@@(\w+)\s*(.*)$', line)
            if m:
                k, rest = m.groups()
                cur = None
                if k == 'prelude': sect = 'prelude'; continue
                if k == 'record': a, b = rest.split('=>'); self.recs[a.strip()] = b.strip(); sect = None; continue
                if k == 'name': a, b = rest.split('=>'); self.rnames[a.strip()] = b.strip(); sect = None; continue
                if k == 'const': a, b = rest.split('=>'); self.consts[a.strip()] = b.strip(); sect = None; continue
                if k == 'ctor': a, b = rest.split('=>'); self.ctors[a.strip()] = b.strip(); sect = None; continue
                if k == 'rounded': self.rounded = True; sect = None; continue
                if k == 'value': a, b = rest.split('=>'); self.values[a.strip()] = b.strip(); sect = None; continue
                if k == 'vector': a, b = rest.split('=>'); self.vectors[a.strip()] = b.strip(); sect = None; continue
                if k == 'range': a, b = rest.split('=>'); self.ranges[a.strip()] = b.strip(); sect = None; continue
                if k == 'extern': a, b = rest.split('=>'); self.externs[a.strip()] = b.strip(); sect = None; continue
                if k == 'own': self.own.add(rest.strip()); sect = None; continue
                if k == 'nullable': self.nullable.add(rest.strip()); sect = None; continue
                if k == 'ptrfn': a, b = rest.split('=>'); self.ptrfns[a.strip()] = b.strip(); sect = None; continue
                if k == 'field': a, b = rest.split('+'); self.ghostfields.setdefault(a.strip(), []).append(b.strip()); sect = None; continue
                if k == 'assume': self.assumes.append(rest); sect = None; continue
                if k == 'fn':
                    key, nm = rest.rsplit(' as ', 1)
                    cur = {'as': nm.strip(), 'loops': {}, 'ghost': [], 'ghostargs': {}}
                    self.fns[key.strip()] = cur; self.order.append(key.strip()); sect = None; continue
                raise ValueError(line)
            m = re.match(r'^@(\w+)\s*(.*)$', line)
            if m:
                k, rest = m.groups()
                if k == 'loop':
                    p, w = rest.split()
                    L = cur['loops'].setdefault(p, {}); sect = ('loop', w); L.setdefault(w, ''); continue
                if k == 'call':
                    sect = ('call', rest.strip()); L = cur.setdefault('calls', {}); L.setdefault(rest.strip(), ''); continue
                if k == 'decl':
                    p, w = rest.split()
                    L = cur.setdefault('decls', {}).setdefault(p, {}); sect = ('decl', w); L.setdefault(w, ''); continue
                if k == 'userdata': a = rest.split(' as '); cur['userdata'] = (a[0].strip(), a[1].strip()); continue
                if k == 'outmem':
                    a = rest.split(); cur.setdefault('outmem', {}).setdefault(a[0], {}).update(z.split('=') for z in a[1:]); continue
                if k == 'valaddr': cur['valaddr'] = True; continue
                if k == 'scalarptr': cur.setdefault('scalarptr', []).append(rest.strip()); continue
                if k == 'retrec': cur['retrec'] = rest.strip(); continue
                if k in ('requires', 'ensures', 'start', 'end', 'attr', 'return', 'throw', 'raise'):
                    sect = k; cur[k] = rest + '\n' if rest else ''; continue
                if k == 'outptr': cur.setdefault('outptr', []).append(rest.strip()); continue
                if k == 'ghost': cur['ghost'].append(rest); continue
                if k == 'ghostarg': a, b = rest.split('=', 1); cur['ghostargs'][a.strip()] = b.strip(); continue
                if k == 'dead':
                    a = rest.split()
                    if len(a) == 1 or a[1] == a[2]: cur.setdefault('dead', []).append(a[0])
                    continue
                if k == 'voidptr': a = rest.split(); cur.setdefault('voidptr', {})[a[0]] = a[1]; continue
                if k == 'generic': cur['generic'] = rest; continue
                if k == 'assumed': cur['assumed'] = rest.strip(); continue
                if k == 'isolate': cur['isolate'] = '1'; continue
                if k == 'rlimit': cur['rlimit'] = rest; continue
                if k == 'nothis': cur['nothis'] = True; continue
                raise ValueError(line)
            if sect == 'prelude': self.prelude += line + '\n'
            elif isinstance(sect, tuple): L[sect[1]] += line + '\n'
            elif sect and cur is not None: cur[sect] += line + '\n'

def translate(data, spec, vac=False):
    tr = Tr(data, spec)
    tr.vac = vac; tr.vacn = 0
    tr.allrecs = data['records']
    out = []
    missing = []
    for k in spec.order:
        base = k
        fs = [f for kk, l in tr.fns.items() for f in l if tr.key(f) == k or tr.key(f) + ':' + f['fty'] == k]
        if not fs: raise Unsupported('function %s not found in the source' % k)
        if len(fs) > 1: raise Unsupported('function %s is ambiguous: %s' % (k, [f['fty'] for f in fs]))
        out.append(tr.function(fs[0], spec.fns[k]))
    return tr, out
