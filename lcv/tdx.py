"""Rewrite patterns (TableGen) -> Verus.

llvm-tblgen elaborates the .td file of the repository (classes, multiclasses,
foreach and includes are resolved by it); every record of class Pattern becomes
one function without a body whose precondition is what the pattern matches and
its constraints, and whose postcondition says that the matched operation and
the operation that replaces it have the same value.  Operations, native code
calls and constraints are uninterpreted functions of their arguments; what they
mean is stated in the specification file."""
import hashlib, json, os, re, subprocess
from translate import Unsupported
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)

def extract(path, rel, repo):
    cmd = ['llvm-tblgen-18', '--dump-json', '-I', os.path.join(ROOT, 'stubs_td'), '-I', repo, '-I', '/usr/lib/llvm-18/include', path]
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=120)
    if p.returncode or not p.stdout: raise Unsupported('llvm-tblgen: ' + p.stderr[-600:])
    return {'td': json.loads(p.stdout), 'file': rel}

CANON = {'LQ_QuantizeOp': ['x'], 'LQ_DequantizeOp': ['x'], 'LQ_BMaxPool2dOp': ['input', 'padding', 'stride_width', 'stride_height', 'filter_width', 'filter_height'],
  'LQ_Bconv2dOp': ['input', 'filter', 'post_activation_multiplier', 'post_activation_bias', 'output_threshold', 'channels_in', 'dilation_height_factor', 'dilation_width_factor',
    'fused_activation_function', 'pad_values', 'padding', 'stride_height', 'stride_width']}
san = lambda s: re.sub(r'\W+', '_', str(s)).strip('_')
norm = lambda s: re.sub(r'\s+', ' ', s).strip()
def bare(e):
    e = e.strip()
    while e.startswith('(') and e.endswith(')'):
        d = 0
        for i, c in enumerate(e):
            d += (c == '(') - (c == ')')
            if d == 0: break
        if i != len(e) - 1: break
        e = e[1:-1].strip()
    return e
def number(s):
    s = s.strip()
    if re.match(r'^-?[\d.]+f?$', s): return 'k_num_' + repr(float(s.rstrip('f'))).replace('-', 'm').replace('.', '_')

class Td:
    def __init__(self, data, spec, vac):
        self.d = data['td']; self.file = data['file']; self.spec = spec; self.vac = vac; self.vacn = 0
        self.stats = {}; self.assumed = []; self.decl = {}
    def use(self, name, n, ty='V'):
        if self.decl.setdefault(name, (n, ty)) != (n, ty): raise Unsupported('%s with %d and %d arguments' % (name, n, self.decl[name][0]))
        return name
    def app(self, name, args, ty='V'): return '%s(%s)' % (self.use(name, len(args), ty), ', '.join(args))
    def isa(self, n, c): return c in self.d[n]['!superclasses']

    # ---- constraints
    def atom(self, e, args, me):
        e = norm(bare(e))
        if e in ('true', '(true)') or re.match(r'^\$(_self|\d+)\.(hasOneUse\(\)|isa<\w+>\(\))$', e) or re.match(r'^(::)?llvm::isa<[\w:]+>\(\$_self\)$', e): return None
        val = lambda a: me if a == '$_self' else args[int(a[1:])]
        m = re.match(r'^(!?)(\w+)\((.*)\)$', e)
        if m:
            out = []
            for a in [x.strip() for x in m.group(3).split(',')]:
                if re.match(r'^\$(_self|\d+)$', a): out.append(val(a))
                elif number(a): out.append(self.app(number(a), []))
                else: break
            else: return m.group(1) + self.app('p_' + m.group(2), out, 'bool')
        m = re.match(r'^\*(\$_self|\$\d+)\.cast<DenseElementsAttr>\(\)\.getValues<float>\(\)\.begin\(\) == (-?[\d.]+f?)$', e)
        if m: return self.app('p_first_value_is', [val(m.group(1)), self.app(number(m.group(2)), [])], 'bool')
        m = re.match(r'^(\$_self|\$\d+)\.cast<DenseElementsAttr>\(\)\.getNumElements\(\) == 1$', e)
        if m: return self.app('p_one_element', [val(m.group(1))], 'bool')
        m = re.match(r'^(\$_self)\.cast<ElementsAttr>\(\)\.getShapedType\(\)\.getElementType\(\)\.isF32\(\)$', e)
        if m: return self.app('p_float32', [val(m.group(1))], 'bool')
        if me is None and args: me = args[0]   # a constraint on the type of a value
        ph = sorted(set(re.findall(r'\$_self|\$\d+', e)))
        return self.app('q_' + hashlib.md5(e.encode()).hexdigest()[:10], [val(a) for a in ph], 'bool')   # nothing is known of it
    def pred(self, n, args, me):
        p = self.d[n]
        if 'predExpr' in p:
            out = []; depth = 0; cur = ''
            e = bare(p['predExpr']); i = 0
            while i < len(e):
                if e[i] in '([{': depth += 1
                if e[i] in ')]}': depth -= 1
                if depth == 0 and e[i:i + 2] == '||': return [self.atom('opaque ' + e, args, me)]
                if depth == 0 and e[i:i + 2] == '&&': out.append(cur); cur = ''; i += 2; continue
                cur += e[i]; i += 1
            return [a for a in (self.atom(x, args, me) for x in out + [cur]) if a]
        if p.get('kind') and p['kind'].get('def') == 'PredCombinerAnd':
            return [a for c in p['children'] for a in self.pred(c['def'], args, me)]
        return []   # a combination nothing is concluded from
    def constraint(self, n, args, me): return self.pred(self.d[n]['predicate']['def'], args, me)

    # ---- constants and native code
    def const(self, n):
        p = self.d[n]; v = p['value'].strip('"')
        if self.isa(n, 'ConstantStrAttr'): return self.app('k_%s_%s' % (p['attr']['def'], san(v)), [])
        a = p['attr']['def']; a = self.d[a]['!superclasses'][-1] if self.d[a]['!anonymous'] else a
        return self.app('k_%s_%s' % (a, san(v.replace('\\"', ''))) , []) if not number(v) else self.app('k_%s_%s' % (a, number(v)[2:]), [])
    def native(self, n, args, me):
        e = norm(self.d[n]['expression'])
        if re.match(r'^\$_builder\.create<TFL::NoValueOp>\(\$0\.getLoc\(\), \$_builder\.getUnitAttr\(\)\)$', e): return self.app('n_None', [])
        m = re.match(r'^\$_builder\.getI32IntegerAttr\(\$_self\.cast<ArrayAttr>\(\)\.getValue\(\)\[(\d+)\]\.cast<IntegerAttr>\(\)\.getInt\(\)\)$', e)
        if m: return self.app('n_IntAt', [me, self.app(number(m.group(1)), [])])
        val = lambda a: me if a == '$_self' else args[int(a[1:])]
        m = re.match(r'^(\w+)\((.*)\)$', e)
        if m:
            out = []
            for a in [x.strip() for x in m.group(2).split(',')]:
                if a in ('$_builder', '&$_builder'): continue
                if re.match(r'^\$(_self|\d+)$', a): out.append(val(a))
                elif number(a): out.append(self.app(number(a), []))
                else: raise Unsupported('native code ' + e)
            return self.app('n_' + m.group(1), out)
        return self.app('n_%s_%s' % (san(n) if not self.d[n]['!anonymous'] else 'code', hashlib.md5(e.encode()).hexdigest()[:6]), args + ([me] if me else []))

    # ---- patterns
    def op(self, n, args):
        want = len(self.d[n]['arguments']['args'])
        if n == 'TFL_NoValueOp': return self.app('n_None', [])
        if len(args) != want: raise Unsupported('%s takes %d arguments, %d given' % (n, want, len(args)))
        if n in CANON:      # the dialect is the repository's: arguments go by name, tensors also by place (the file format has no names)
            have = self.d[n]['arguments']['args']; names = [z[1] for z in have]
            if sorted(names) != sorted(CANON[n]): raise Unsupported('arguments of ' + n)
            tensor = lambda z: self.isa(z[0]['def'], 'TypeConstraint')
            if [z[1] for z in have if tensor(z)] != [z for z in CANON[n] if tensor(have[names.index(z)])]: return self.app(n + '_reordered', args)
            args = [args[names.index(z)] for z in CANON[n]]
        return self.app(n, args)
    def source(self, x, env, hyp):
        o = x['operator']['def']
        if not self.isa(o, 'Op'): raise Unsupported('source operator ' + o)
        args = []
        for a, nm in x['args']:
            if isinstance(a, dict) and a['kind'] == 'dag': args.append(self.source(a, env, hyp)); continue
            n = a['def'] if isinstance(a, dict) and a['kind'] == 'def' else None
            v = env.get(nm) if nm else None
            if v is None:
                v = 'x_' + (nm or 'u%d' % len(self.vars)); self.vars.append(v)
                if nm: env[nm] = v
            args.append(v)
            if n is None: continue
            if self.isa(n, 'ConstantAttr'): hyp.append('%s == %s' % (v, self.const(n)))
            else: hyp += self.constraint(n, [], v)
        t = self.op(o, args)
        if x.get('name'): env[x['name']] = t
        return t
    def result(self, x, env, nm=None):
        if x is None or (isinstance(x, dict) and x.get('printable') == '?'): return self.bound(nm, env)
        if x['kind'] == 'def':
            n = x['def']
            if self.isa(n, 'ConstantAttr'): return self.const(n)
            if self.isa(n, 'NativeCodeCall'): return self.native(n, [], self.bound(nm, env) if nm else None)
            raise Unsupported('result leaf ' + n)
        if x['kind'] != 'dag': raise Unsupported('result ' + str(x)[:80])
        o = x['operator']['def']; args = [self.result(a, env, m) for a, m in x['args']]
        if o == 'replaceWithValue': return args[0]
        if self.isa(o, 'NativeCodeCall'): return self.native(o, args, None)
        if not self.isa(o, 'Op'): raise Unsupported('result operator ' + o)
        return self.op(o, args)
    def bound(self, nm, env):
        if nm not in env: raise Unsupported('$%s is not bound' % nm)
        return env[nm]
    def mentions(self, x):
        if isinstance(x, dict):
            s = {x['def']} if x.get('kind') == 'def' else set()
            for v in x.values(): s |= self.mentions(v)
            return s
        return set().union(*[self.mentions(v) for v in x]) if isinstance(x, list) else set()
    def parts(self, n):
        p = self.d[n]; self.vars = []; env = {}; hyp = []
        if len(p['resultPatterns']) != 1 or p.get('supplementalPatterns'): raise Unsupported('pattern with several results')
        src = self.source(p['sourcePattern'], env, hyp)
        for c in p['constraints']:
            if c['kind'] != 'dag': raise Unsupported('constraint')
            hyp += self.constraint(c['operator']['def'], [self.result(a, env, m) for a, m in c['args']], None)
        return src, hyp, self.result(p['resultPatterns'][0], env)
    def pattern(self, i, n):
        p = self.d[n]; src, hyp, res = self.parts(n)
        name = 'pattern_%d_%s' % (i, p['sourcePattern']['operator']['def'])
        o = ['// from %s, pattern %d' % (self.file, i), 'pub fn %s(%s)' % (name, ', '.join('Ghost(%s): Ghost<V>' % v for v in self.vars))]
        if hyp: o.append('    requires ' + ', '.join(hyp))
        o.append('    ensures %s\n        == %s' % (src, res)); o.append('{')
        ax = re.findall(r'broadcast proof fn (\w+)', self.spec.prelude)
        if ax: o.append('broadcast use {%s};' % ', '.join(ax))
        if self.vac: self.vacn += 1; o.append('proof { assert(lcv_vac(%d)); } // VAC start of %s' % (self.vacn, name))
        o.append('}')
        self.stats[name] = {'key': name, 'loops': 0, 'loc': {'f': self.file, 'l': 0}}
        return '\n'.join(o)

def chosen(tr, pick):
    for i, n in enumerate(tr.d['!instanceof']['Pattern']):
        m = tr.mentions(tr.d[n]['sourcePattern']); r = tr.mentions(tr.d[n]['resultPatterns'])
        if any(all((w[1:] not in m | r) if w[0] == '!' else (w[1:] in m) if w[0] == '<' else (w[1:] in r) if w[0] == '>' else (w in m | r) for w in alt.split()) for alt in pick): yield i, n

def gen(data, spec, vac, pick, spectext):
    tr = Td(data, spec, vac); out = [tr.pattern(i, n) for i, n in chosen(tr, pick)]
    if not out: raise Unsupported('no pattern of %s is concerned' % data['file'])
    # names the specification uses and the patterns do not
    for w in sorted(set(re.findall(r'\b((?:k_|n_|p_)\w+|(?:LQ|TFL|TF|Arith)_\w+Op)\(', spec.prelude))):
        if w in tr.decl: continue
        m = re.search(r'\b%s\(' % w, spec.prelude); j = m.end(); depth = 1; n = 0 if spec.prelude[j] == ')' else 1
        while depth:
            c = spec.prelude[j]; depth += (c == '(') - (c == ')'); n += c == ',' and depth == 1; j += 1
        tr.decl[w] = (n, 'bool' if w.startswith('p_') else 'V')
    # different constants are different values
    o = ['pub uninterp spec fn %s(%s) -> %s;' % (n, ', '.join('a%d: V' % k for k in range(a)), t) for n, (a, t) in sorted(tr.decl.items())]
    txt = '#![allow(warnings)]\nuse vstd::prelude::*;\nverus! {\n#[verifier::external_body] pub struct V { }\n// ---- operations, constants, native code and constraints\n' + '\n'.join(o)
    txt += '\n// ---- specification\n' + spec.prelude + '\n// ---- patterns\n' + '\n\n'.join(out)
    if vac: txt += '\npub uninterp spec fn lcv_vac(k: int) -> bool;\n'
    return tr, txt + '\nfn main() {}\n}\n'
