"""Python functions -> Verus: a mechanical translation of a small subset of Python (the one util.py is written in).

Values are untyped (V); the heap is explicit (h).  Every expression becomes calls of the primitives in pyprelude.rs, in
Python's order of evaluation; an operation that could raise (an index out of range, a missing key, an unset variable) has
that as its precondition.  `raise` becomes a proof obligation (the function's @throw condition) after which the path ends;
the message of the exception is dropped.  A nested function becomes a function with its captured variables as parameters.
A comprehension or generator expression is a loop that appends to a list; a generator function appends what it yields to a list
and returns that (its items are asked for in order, and making one depends on nothing the consumer does).
A comprehension's variable is its own.  `with f() as x` is a call of f before and of f_exit after (at a return too).  `try: .. except
Exception:` either runs the attempt to its end or abandons it: nothing is known then of what it made or assigned, but what existed
before it is as it was.  A method is a function of its object; self.x is a call where x is a property of the class.
Anything outside the subset makes the unit unattached."""
import ast, re
import translate as T
Unsupported = T.Unsupported

def extract(path, rel):
    text = open(path).read()
    return {'py': ast.parse(text), 'file': rel}

class Fn:
    def __init__(self, node, key, captured): self.node = node; self.key = key; self.captured = captured

def local_names(node):
    """parameters and assigned names of a function, not looking into nested functions"""
    args = [a.arg for a in node.args.args + node.args.kwonlyargs]
    out = []
    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out and n.id not in args: out.append(n.id)
        for c in ast.iter_child_nodes(n): visit(c)
    for s in node.body: visit(s)
    return args, out

# attribute names that are words of Rust
def fld(a): return a + '_' if a in ('type', 'fn', 'mod', 'use', 'in', 'ref', 'match', 'self', 'move', 'where', 'loop') else a

def is_property(n): return len(n.decorator_list) == 1 and isinstance(n.decorator_list[0], ast.Name) and n.decorator_list[0].id == 'property'

class Py:
    def __init__(self, data, spec, vac):
        self.spec = spec; self.vac = vac; self.vacn = 0; self.stats = {}; self.assumed = []; self.helpers = {}; self.recdefs = {}
        self.file = data['file']; self.fns = {}; self.consts = {}; self.lits = {}; self.attrs = set(); self.classes = {}
        def collect(body, prefix, outer):
            for n in body:
                if isinstance(n, ast.FunctionDef):
                    a, l = local_names(n); key = prefix + n.name; cap = []
                    if outer:
                        own = set(a) | set(l)
                        for x in ast.walk(n):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in outer and x.id not in own and x.id not in cap: cap.append(x.id)
                            if isinstance(x, (ast.Nonlocal, ast.Global)): raise Unsupported('nonlocal in ' + key)
                    self.fns[key] = Fn(n, key, cap); collect(n.body, key + '.', set(a) | set(l) | (outer or set()))
                elif isinstance(n, ast.ClassDef) and outer is None:
                    self.classes[n.name] = n; collect(n.body, n.name + '.', None)
                elif hasattr(n, 'body') and not isinstance(n, ast.ClassDef):
                    for part in ('body', 'orelse', 'finalbody'): collect(getattr(n, part, None) or [], prefix, outer)
        collect(data['py'].body, '', None)

    # -- output
    def emit(self, s, n=None): self.lines.append('    ' * self.ind + s + ('  // L%d' % n.lineno if n is not None else ''))
    def emit_spec(self, t):
        if t and t.strip():
            for l in t.rstrip().split('\n'): self.lines.append('    ' * self.ind + l)
    def vacpoint(self, what):
        if self.vac: self.vacn += 1; self.emit('proof { assert(lcv_vac(%d)); } // VAC %s' % (self.vacn, what))
    def tmp(self): self.nt += 1; return 't%d_' % self.nt
    def let(self, e, n=None): t = self.tmp(); self.emit('let %s = %s;' % (t, e), n); return t
    def const(self, name):
        f = 'k_' + re.sub(r'\W', '_', name)
        if f not in self.consts:
            if name not in self.spec.consts: raise Unsupported('the meaning of %s is not given' % name)
            self.consts[f] = self.spec.consts[name]
        return self.let('%s()' % f)
    def literal(self, v):
        s = v.decode('latin1') if isinstance(v, bytes) else v
        return self.lits.setdefault((type(v).__name__, s), 'lit_' + (re.sub(r'\W', '_', s)[:40] or 'empty') + ('' if isinstance(v, bytes) else '_s'))

    # -- expressions: the result is a Rust expression of type V without side effects
    def dotted(self, e):
        p = []
        while isinstance(e, ast.Attribute): p.append(e.attr); e = e.value
        if isinstance(e, ast.Name) and e.id not in self.names: return '.'.join([e.id] + p[::-1])
        return None
    def expr(self, e):
        if isinstance(e, ast.Constant):
            v = e.value
            if v is None: return self.let('v_none()')
            if isinstance(v, bool): return self.let('v_bool(%s)' % str(v).lower())
            if isinstance(v, int): return self.let('v_int(%di64)' % v)
            if isinstance(v, (str, bytes)): return self.let('%s_x()' % self.literal(v))
            raise Unsupported('constant %r' % (v,))
        if isinstance(e, ast.Name):
            if e.id in self.names: return 'v_' + e.id if False else self.let('v_use(%s)' % self.var(e.id))
            return self.const(e.id)
        if isinstance(e, ast.Attribute):
            d = self.dotted(e)
            if d: return self.const(d)
            if isinstance(e.value, ast.Name) and e.value.id == self.selfname and self.cls + '.' + e.attr in self.fns:
                m = self.fns[self.cls + '.' + e.attr]
                if not is_property(m.node): raise Unsupported('method value %s (line %d)' % (e.attr, e.lineno))
                return self.callfn(m, [self.expr(e.value)], {}, e, e.attr)
            o = self.expr(e.value); self.attrs.add(fld(e.attr)); return self.let('py_getattr(h, %s, Fld::%s)' % (o, fld(e.attr)), e)
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice):
                if e.slice.upper is not None or e.slice.step is not None or e.slice.lower is None: raise Unsupported('slice read (line %d)' % e.lineno)
                o = self.expr(e.value); return self.let('py_slice_from(h, %s, %s)' % (o, self.expr(e.slice.lower)), e)
            o = self.expr(e.value); i = self.expr(e.slice); return self.let('py_index(h, %s, %s)' % (o, i), e)
        if isinstance(e, (ast.List, ast.Tuple)):
            vs = [self.expr(x) for x in e.elts]; t = self.let('py_list(h)', e)
            for v in vs: self.emit('py_append(h, %s, %s);' % (t, v))
            return t
        if isinstance(e, ast.Set):
            vs = [self.expr(x) for x in e.elts]; t = self.let('py_set(h)', e)
            for v in vs: self.emit('py_add_to(h, %s, %s);' % (t, v))
            return t
        if isinstance(e, ast.Dict) and not e.keys: return self.let('py_dict(h)', e)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            if isinstance(e.operand, ast.Constant) and isinstance(e.operand.value, int): return self.let('v_int(-%di64)' % e.operand.value)
            return self.let('py_neg(%s)' % self.expr(e.operand), e)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): return self.let('v_bool(!%s)' % self.cond(e.operand))
        if isinstance(e, ast.BinOp):
            a = self.expr(e.left); b = self.expr(e.right)
            f = {ast.Add: 'py_add', ast.Sub: 'py_sub', ast.Mult: 'py_mul'}.get(type(e.op))
            if not f: raise Unsupported('operator (line %d)' % e.lineno)
            return self.let('%s(%s, %s)' % (f, a, b), e)
        if isinstance(e, ast.BoolOp):
            t = self.tmp(); self.emit('let mut %s = %s;' % (t, self.expr(e.values[0])), e)
            for v in e.values[1:]:
                c = self.let('py_truth(h, %s)' % t); self.emit('if %s%s {' % ('' if isinstance(e.op, ast.And) else '!', c)); self.ind += 1
                x = self.expr(v); self.emit('%s = %s;' % (t, x)); self.ind -= 1; self.emit('}')
            return t
        if isinstance(e, ast.IfExp):
            c = self.cond(e.test); t = self.tmp(); self.emit('let mut %s = v_none();' % t)
            for part, kw in ((e.body, 'if %s {' % c), (e.orelse, '} else {')):
                self.emit(kw); self.ind += 1; x = self.expr(part); self.emit('%s = %s;' % (t, x)); self.ind -= 1
            self.emit('}'); return t
        if isinstance(e, ast.Compare):
            if len(e.ops) != 1: raise Unsupported('chained comparison (line %d)' % e.lineno)
            a = self.expr(e.left); b = self.expr(e.comparators[0]); op = type(e.ops[0])
            f = {ast.Eq: 'py_eq', ast.NotEq: 'py_ne', ast.In: 'py_in', ast.NotIn: 'py_notin', ast.Is: 'py_is', ast.IsNot: 'py_isnot', ast.Lt: 'py_lt', ast.LtE: 'py_le', ast.Gt: 'py_gt', ast.GtE: 'py_ge'}[op]
            return self.let('%s(h, %s, %s)' % (f, a, b), e)
        if isinstance(e, ast.Call): return self.call(e)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)) and len(e.generators) == 1 and not e.generators[0].is_async:
            g = e.generators[0]; isset = isinstance(e, ast.SetComp); box = []
            def head(path):
                c = 'c' + path.replace('.', '_'); self.emit('let %s = %s(h);' % (c, 'py_set' if isset else 'py_list')); box.append(c)
            def body():
                for c in g.ifs: self.emit('if %s {' % self.cond(c)); self.ind += 1
                x = self.expr(e.elt); self.emit('%s(h, %s, %s);' % ('py_add_to' if isset else 'py_append', box[0], x), e)
                for c in g.ifs: self.ind -= 1; self.emit('}')
            # the names it binds are its own: those of the function come back after it
            own = sorted({x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)} & self.shared); sv = [(n, self.let(self.var(n))) for n in own]
            self.loop(e, g.iter, g.target, head, body)
            for n, v in sv: self.emit('%s = %s;' % (self.var(n), v))
            return box[0]
        raise Unsupported('%s (line %d)' % (type(e).__name__, getattr(e, 'lineno', 0)))
    def call(self, e):
        f = e.func
        if isinstance(f, ast.Attribute) and self.dotted(f) is None:
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and not f.value.args and 'super.' + f.attr in self.spec.externs and self.selfname:
                return self.let('%s(h, %s)' % (self.spec.externs['super.' + f.attr], ', '.join([self.expr(ast.copy_location(ast.Name(self.selfname, ast.Load()), e))] + [self.expr(x) for x in e.args])), e)
            o = self.expr(f.value); a = [self.expr(x) for x in e.args]
            if not e.keywords and '.%s/%d' % (f.attr, len(a)) in self.spec.externs: return self.let('%s(h, %s)' % (self.spec.externs['.%s/%d' % (f.attr, len(a))], ', '.join([o] + a)), e)
            if e.keywords and all(k.arg and isinstance(k.value, ast.Constant) for k in e.keywords):
                full = '.%s/%d[%s]' % (f.attr, len(a), ','.join('%s=%r' % x for x in sorted((k.arg, k.value.value) for k in e.keywords)))
                if full in self.spec.externs: return self.let('%s(h, %s)' % (self.spec.externs[full], ', '.join([o] + a)), e)
            if e.keywords: raise Unsupported('keyword arguments of a method (line %d)' % e.lineno)
            m = {('append', 1): 'py_append', ('add', 1): 'py_add_to', ('remove', 1): 'py_remove', ('pop', 1): 'py_pop', ('get', 2): 'py_get', ('get', 1): 'py_get1', ('discard', 1): 'py_discard', ('insert', 2): 'py_insert', ('extend', 1): 'py_extend', ('index', 1): 'py_find'}.get((f.attr, len(a)))
            if not m: raise Unsupported('method %s (line %d)' % (f.attr, e.lineno))
            return self.let('%s(h, %s)' % (m, ', '.join([o] + a)), e)
        name = self.dotted(f) if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        if name is None: raise Unsupported('call (line %d)' % e.lineno)
        kw = {k.arg: k.value for k in e.keywords}
        if name in ('len', 'min', 'max', 'set', 'list', 'dict', 'sorted', 'range', 'enumerate', 'any', 'all', 'int'):
            if name == 'sorted' and len(e.args) == 1 and set(kw) <= {'reverse'}:
                rev = 'reverse' in kw and isinstance(kw['reverse'], ast.Constant) and kw['reverse'].value is True
                if 'reverse' in kw and not isinstance(kw['reverse'], ast.Constant): raise Unsupported('sorted')
                return self.let('%s(h, %s)' % ('py_sorted_down' if rev else 'py_sorted_up', self.expr(e.args[0])), e)
            if kw: raise Unsupported('keyword arguments of %s' % name)
            a = [self.expr(x) for x in e.args]
            if name in ('set', 'list', 'dict') and not a: return self.let('py_%s(h)' % name, e)
            if name in ('len', 'min', 'max') and len(a) == 1: return self.let('py_%s(h, %s)' % (name, a[0]), e)
            raise Unsupported('%s with %d arguments (line %d)' % (name, len(a), e.lineno))
        if name == 'isinstance' and len(e.args) == 2 and not kw:
            t = self.dotted(e.args[1]) if isinstance(e.args[1], ast.Attribute) else e.args[1].id if isinstance(e.args[1], ast.Name) else None
            if 'isinstance:%s' % t not in self.spec.externs: raise Unsupported('isinstance (line %d)' % e.lineno)
            return self.let('%s(h, %s)' % (self.spec.externs['isinstance:%s' % t], self.expr(e.args[0])), e)
        if name == 'hasattr' and len(e.args) == 2 and not kw and isinstance(e.args[1], ast.Constant):
            if 'hasattr:%s' % e.args[1].value not in self.spec.externs: raise Unsupported('hasattr (line %d)' % e.lineno)
            return self.let('%s(h, %s)' % (self.spec.externs['hasattr:%s' % e.args[1].value], self.expr(e.args[0])), e)
        if name == 'zip' and len(e.args) == 1 and isinstance(e.args[0], ast.Starred) and not kw: return self.let('py_zip(h, %s)' % self.expr(e.args[0].value), e)
        # a function of the file
        fn = None
        for pre in self.scopes:
            if pre + name in self.fns: fn = self.fns[pre + name]; break
        a = [self.expr(x) for x in e.args]; k = {x: self.expr(v) for x, v in kw.items()}
        if kw and all(isinstance(v, ast.Constant) for v in kw.values()):
            full = '%s[%s]' % (name, ','.join('%s=%r' % (x, kw[x].value) for x in sorted(kw)))
            if full in self.spec.externs: return self.let('%s(h%s)' % (self.spec.externs[full], ''.join(', ' + x for x in a)), e)
        # an external function with named arguments: name/2(a,b) takes two arguments, then a, then b
        full = [x for x in self.spec.externs if k and x.startswith('%s/%d(' % (name, len(a))) and sorted(x[x.index('(') + 1:-1].split(',')) == sorted(k)]
        if full: return self.let('%s(h%s)' % (self.spec.externs[full[0]], ''.join(', ' + x for x in a + [k[y] for y in full[0][full[0].index('(') + 1:-1].split(',')])), e)
        if name in self.spec.externs:
            if k: raise Unsupported('keyword arguments of ' + name)
            return self.let('%s(h%s)' % (self.spec.externs[name], ''.join(', ' + x for x in a)), e)
        if fn is None: raise Unsupported('%s carries no contract (line %d)' % (name, e.lineno))
        return self.callfn(fn, a, k, e, name)
    def callfn(self, fn, a, k, e, name):
        if fn.key not in self.spec.fns: raise Unsupported('%s carries no contract (line %d)' % (name, e.lineno))
        n = fn.node.args; ps = [x.arg for x in n.args + n.kwonlyargs]
        for i, p in enumerate(ps):
            if i < len(a): continue
            if p in k: a.append(k.pop(p)); continue
            d = (n.defaults[i - (len(n.args) - len(n.defaults))] if i < len(n.args) and i >= len(n.args) - len(n.defaults) else n.kw_defaults[i - len(n.args)] if i >= len(n.args) else None)
            if d is None: raise Unsupported('missing argument %s (line %d)' % (p, e.lineno))
            a.append(self.expr(d))
        if k or n.vararg or n.kwarg: raise Unsupported('arguments of ' + name)
        sp = self.spec.fns[fn.key]; gh = []
        for g in sp.get('ghost', []):
            gn = re.match(r'Ghost\((\w+)\)', g).group(1)
            gh.append('Ghost(%s)' % self.sp['ghostargs'].get(sp['as'] + '.' + gn, gn))
        a += [self.var(c) for c in fn.captured]
        if sp.get('throw'):
            t = 'throw_%s(%s)' % (sp['as'], ', '.join(['h@'] + a + [re.sub(r'^Ghost\((.*)\)$', r'\1', x) for x in gh]))
            if not self.intry: self.emit('proof { assert(%s); }' % ('%s ==> %s' % (t, self.raised()) if self.throws else '!' + t), e)
        self.nth[sp['as']] = self.nth.get(sp['as'], 0) + 1; num = '%s#%d' % (sp['as'], self.nth[sp['as']])   # the calls in order of the text
        calls = self.sp.get('calls', {}); hook = lambda w: calls.get(num + w) or calls.get(sp['as'] + w)
        self.emit_spec(hook(' before'))
        r = self.let('%s(h%s)' % (sp['as'], ''.join(', ' + x for x in a + gh)), e)
        self.emit_spec((hook(' after') or '').replace('@RET', r)); return r
    def cond(self, e):
        """a Rust bool"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): return '(!%s)' % self.cond(e.operand)
        if isinstance(e, ast.BoolOp):
            t = self.tmp(); c = self.cond(e.values[0]); self.emit('let mut %s: bool = %s;' % (t, c), e)
            for v in e.values[1:]:
                self.emit('if %s%s {' % ('' if isinstance(e.op, ast.And) else '!', t)); self.ind += 1
                c = self.cond(v); self.emit('%s = %s;' % (t, c)); self.ind -= 1; self.emit('}')
            return t
        v = self.expr(e); return self.let('py_truth(h, %s)' % v, e)

    # -- statements
    def raised(self): return '(%s) && (%s)' % (self.throws, self.sp['raise'].strip()) if self.sp.get('raise') else self.throws
    def var(self, n): return 'r_blank' if n == '_' else ('r_' + n) if n in ('fn', 'mut', 'type', 'in', 'let', 'loop', 'ref', 'use', 'match', 'h', 'old', 'spec', 'proof', 'self', 'super') else n
    def assign(self, t, v, n):
        if isinstance(t, ast.Name): self.emit('%s = %s;' % (self.var(t.id), v), n); self.decl(t.id); return
        if isinstance(t, ast.Attribute): o = self.expr(t.value); self.attrs.add(fld(t.attr)); self.emit('py_setattr(h, %s, Fld::%s, %s);' % (o, fld(t.attr), v), n); return
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice): o = self.expr(t.value); i = self.expr(t.slice); self.emit('py_setindex(h, %s, %s, %s);' % (o, i, v), n); return
        if isinstance(t, (ast.Tuple, ast.List)):
            self.emit('py_unpack(h, %s, %d);' % (v, len(t.elts)), n)
            for i, x in enumerate(t.elts): self.assign(x, self.let('py_index(h, %s, v_int(%di64))' % (v, i)), n)
            return
        raise Unsupported('assignment target (line %d)' % n.lineno)
    def decl(self, name): pass
    def stmts(self, body):
        for s in body: self.stmt(s)
    def stmt(self, s):
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant): return
            if isinstance(s.value, ast.Yield):
                if s.value.value is None: raise Unsupported('yield (line %d)' % s.lineno)
                x = self.expr(s.value.value); self.emit_spec((self.sp.get('yield') or '').replace('@RET', x)); self.emit('py_append(h, gen_, %s);' % x, s); return
            self.expr(s.value); return
        if isinstance(s, (ast.FunctionDef, ast.Pass)): return
        if isinstance(s, ast.Assign) or isinstance(s, ast.AnnAssign) and s.value is not None:
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if isinstance(s.value, ast.Tuple) and len(ts) == 1 and isinstance(ts[0], ast.Tuple) and len(ts[0].elts) == len(s.value.elts):
                vs = [self.expr(x) for x in s.value.elts]
                for t, v in zip(ts[0].elts, vs): self.assign(t, v, s)
                return
            v = self.expr(s.value)
            for t in ts: self.assign(t, v, s)
            return
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, (ast.Add, ast.Sub)):
            a = self.expr(ast.copy_location(ast.Name(s.target.id, ast.Load()), s)); b = self.expr(s.value)
            self.emit('%s = %s(%s, %s);' % (self.var(s.target.id), 'py_add' if isinstance(s.op, ast.Add) else 'py_sub', a, b), s); return
        if isinstance(s, ast.If):
            c = self.cond(s.test); self.emit('if %s {' % c, s); self.ind += 1; self.stmts(s.body); self.ind -= 1
            if s.orelse: self.emit('} else {'); self.ind += 1; self.stmts(s.orelse); self.ind -= 1
            self.emit('}'); return
        if isinstance(s, ast.Return):
            v = self.expr(s.value) if s.value is not None else self.let('v_none()')
            for w in self.withs[::-1]: self.emit(w)
            self.emit_spec((self.sp.get('return') or '').replace('@RET', v)); self.emit('return %s;' % v, s); return
        if isinstance(s, ast.Raise):
            if self.intry: self.emit('never();'); return   # what follows is the branch in which the attempt is abandoned
            if not self.sp.get('throw'): raise Unsupported('%s raises but its contract does not say when' % self.key)
            self.emit('proof { assert(%s); }' % self.raised(), s); self.emit('never();'); return
        if isinstance(s, ast.With) and len(s.items) == 1 and isinstance(s.items[0].optional_vars, ast.Name) and isinstance(s.items[0].context_expr, ast.Call):
            c = s.items[0].context_expr; name = self.dotted(c.func) if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else None
            if 'with:%s' % name not in self.spec.externs or c.args or c.keywords: raise Unsupported('with %s (line %d)' % (name, s.lineno))
            if any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(s)): raise Unsupported('with (line %d)' % s.lineno)
            f = self.spec.externs['with:%s' % name]; v = self.let('%s(h)' % f, s); self.assign(s.items[0].optional_vars, v, s)
            self.withs.append('%s_exit(h, %s);' % (f, v)); self.stmts(s.body); x = self.withs.pop()
            if not isinstance(s.body[-1], (ast.Return, ast.Raise)): self.emit(x)
            return
        if isinstance(s, ast.Try) and len(s.handlers) == 1 and not s.orelse and not s.finalbody and s.handlers[0].name is None and (s.handlers[0].type is None or isinstance(s.handlers[0].type, ast.Name) and s.handlers[0].type.id == 'Exception'):
            # either the attempt runs to its end, or an exception ends it somewhere: then what was made before it is as it was, and what it assigned is lost
            if any(isinstance(x, (ast.Break, ast.Continue, ast.Try)) for b in s.body for x in ast.walk(b)) or self.intry: raise Unsupported('try (line %d)' % s.lineno)
            for x in (y for z in s.body for y in ast.walk(z)):
                if isinstance(x, (ast.Attribute, ast.Subscript)) and not isinstance(x.ctx, ast.Load) or isinstance(x, (ast.Delete, ast.AugAssign)) or isinstance(x, ast.Attribute) and x.attr in ('append', 'add', 'remove', 'pop', 'discard', 'insert', 'extend'): raise Unsupported('a change to an object within try (line %d)' % s.lineno)
            b = self.let('py_attempt(h)', s); self.emit('if %s {' % b); self.ind += 1; self.intry = True; self.vacpoint('attempt of ' + self.sp['as']); self.stmts(s.body); self.intry = False; self.ind -= 1
            self.emit('} else {'); self.ind += 1; self.emit('py_abandon(h);')
            for n in sorted({x.id for y in s.body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}): self.emit('%s = v_unset();' % self.var(n))
            self.vacpoint('handler of ' + self.sp['as']); self.stmts(s.handlers[0].body); self.ind -= 1; self.emit('}'); return
        if isinstance(s, ast.Continue): self.emit_spec(self.loopstack[-1][1]); self.emit(self.loopstack[-1][0]); self.emit('continue;', s); return
        if isinstance(s, ast.Break): self.emit('break;', s); return
        if isinstance(s, ast.Delete) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and isinstance(s.targets[0].slice, ast.Slice):
            t = s.targets[0]
            if t.slice.upper is not None or t.slice.step is not None or t.slice.lower is None: raise Unsupported('del (line %d)' % s.lineno)
            o = self.expr(t.value); self.emit('py_del_from(h, %s, %s);' % (o, self.expr(t.slice.lower)), s); return
        if isinstance(s, ast.Delete) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript):
            t = s.targets[0]; o = self.expr(t.value); i = self.expr(t.slice); self.let('py_pop(h, %s, %s)' % (o, i), s); return
        if isinstance(s, ast.For) and not s.orelse: self.loop(s, s.iter, s.target, None, lambda: self.stmts(s.body)); return
        if isinstance(s, (ast.Import, ast.ImportFrom)): return   # the names it binds mean what the spec says they mean
        raise Unsupported('%s (line %d)' % (type(s).__name__, s.lineno))

    def loop(self, s, e, target, head, body):
        self.loopn[-1] += 1; path = '.'.join(map(str, self.loopn)); self.loops.append(path)
        if path not in self.sp['loops']: raise Unsupported('loop %s of %s carries no invariant' % (path, self.key))
        L = self.sp['loops'][path]; k = 'k' + path.replace('.', '_'); it = 'it' + path.replace('.', '_')
        enum = False; rng = False
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'enumerate' and len(e.args) == 1 and not e.keywords: enum = True; e = e.args[0]
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'range' and len(e.args) == 1: rng = True; e = e.args[0]
        v = self.expr(e); self.emit('let %s = %s;' % (it, v), s); self.emit('let mut %s: u64 = 0;' % k)
        lim = 'py_count(%s)' % it if rng else 'py_iterlen(h, %s)' % it
        if head: head(path)
        self.emit_spec(L.get('before')); self.emit('while %s < %s' % (k, lim), s)
        if L.get('inv'): self.emit('    invariant'); self.emit_spec(L['inv'])
        self.emit('    decreases'); self.emit_spec(L.get('dec') or '        %s - %s' % ('py_cnt(%s)' % it if rng else 'elts(h@, %s).len()' % it, k))
        self.emit('{'); self.ind += 1; self.emit_spec(L.get('begin')); self.vacpoint('loop %s of %s' % (path, self.sp['as']))
        x = self.let('py_number(%s)' % k if rng else 'py_iterat(h, %s, %s)' % (it, k))
        if enum:
            i = self.let('py_number(%s)' % k)
            if isinstance(target, ast.Tuple) and len(target.elts) == 2:
                self.assign(target.elts[0], i, s); self.assign(target.elts[1], x, s)
            else: raise Unsupported('enumerate target')
        else: self.assign(target, x, s)
        self.emit_spec(L.get('first')); step = '%s = %s + 1;' % (k, k); self.loopstack.append((step, L.get('end') or '')); self.loopn.append(0)
        body(); self.loopn.pop(); self.loopstack.pop()
        self.emit_spec(L.get('end')); self.emit(step); self.ind -= 1; self.emit('}'); self.emit_spec(L.get('after'))

    def function(self, key, sp):
        fn = self.fns[key]; node = fn.node; self.sp = sp; self.key = key; self.lines = []; self.ind = 1; self.nt = 0; self.nth = {}; self.loops = []; self.loopn = [0]; self.loopstack = []; self.withs = []; self.intry = False
        if node.args.vararg or node.args.kwarg or node.args.posonlyargs or node.decorator_list and not is_property(node): raise Unsupported('signature of ' + key)
        self.cls = key.split('.')[0] if key.split('.')[0] in self.classes else None; self.selfname = None
        if self.cls:
            if not node.args.args or key.count('.') != 1: raise Unsupported('signature of ' + key)
            self.selfname = node.args.args[0].arg
        self.gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node))
        if self.gen and (any(isinstance(x, (ast.Return, ast.YieldFrom)) for x in ast.walk(node)) or any(isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not node for x in ast.walk(node))): raise Unsupported('generator ' + key)
        comp = [c for x in ast.walk(node) if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) for c in x.generators]
        inner = [x for c in comp for x in ast.walk(c.target) if isinstance(x, ast.Name)]; bound = {a.arg for a in node.args.args + node.args.kwonlyargs} | {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and not any(x is y for y in inner)}
        self.shared = bound & {x.id for x in inner}
        if self.shared & {a.arg for a in node.args.args + node.args.kwonlyargs}: raise Unsupported('a comprehension of %s reuses the name of a parameter' % key)
        args, loc = local_names(node); params = args + fn.captured
        self.names = set(args) | set(loc) | set(fn.captured)
        parts = key.split('.'); self.scopes = ['.'.join(parts[:i]) + '.' if i else '' for i in range(len(parts), -1, -1) if not (self.cls and i == 1)]
        ps = ['h: &mut Heap'] + ['%s: V' % self.var(a) for a in params] + sp.get('ghost', [])
        gn = [(re.match(r'Ghost\((\w+)\)\s*:\s*Ghost<(.*)>$', g.strip()).groups()) for g in sp.get('ghost', [])]
        self.throws = 'throw_%s(%s)' % (sp['as'], ', '.join(['old(h)@'] + [a + '__0' for a in params] + [n for n, _ in gn])) if sp.get('throw') else None
        assigned = {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for a in params:
            self.emit('let ghost %s__0 = %s;' % (a, self.var(a)))
            if a in assigned: self.emit('let mut %s = %s;' % (self.var(a), self.var(a)))
        for a in loc: self.emit('let mut %s = v_unset();' % self.var(a))
        self.emit_spec(sp.get('start')); self.vacpoint('start of ' + sp['as'])
        if self.gen: self.emit('let gen_ = py_list(h);')
        self.stmts(node.body)
        if self.gen: self.emit_spec(sp.get('end')); self.emit('gen_')
        elif not isinstance(node.body[-1], (ast.Return, ast.Raise)): self.emit_spec(sp.get('end')); self.emit('v_none()')
        elif isinstance(node.body[-1], ast.Raise): self.emit('v_none()')
        want = set(sp['loops']); seen = set(self.loops)
        if want - seen: raise Unsupported('loops %s of %s not present in the code' % (sorted(want - seen), key))
        o = ['// from %s:%d  %s' % (self.file, node.lineno, key)] + ([] if 'isolate' in sp else ['#[verifier::loop_isolation(false)]'])
        if sp.get('rlimit'): o.append('#[verifier::rlimit(%s)]' % sp['rlimit'])
        if sp.get('throw'):
            # when the function may raise
            o.insert(0, 'pub open spec fn throw_%s(%s) -> bool { %s }' % (sp['as'], ', '.join(['h: Hs'] + ['%s: V' % self.var(a) for a in params] + ['%s: %s' % x for x in gn]), ' '.join(sp['throw'].replace('old(h)@', 'h').split('\n')).strip()))
        o.append('#[verifier::spinoff_prover]')
        o.append('pub fn %s(%s) -> (r: V)' % (sp['as'], ', '.join(ps)))
        if sp.get('requires'): o.append('    requires\n' + sp['requires'])
        if sp.get('ensures'): o.append('    ensures\n' + sp['ensures'])
        o.append('{'); o += self.lines; o.append('}')
        self.stats[sp['as']] = {'key': key, 'loops': len(seen), 'loc': {'f': self.file, 'l': node.lineno}}
        return '\n'.join(o)

    def tables(self, text):
        """the attribute names and literals of the file"""
        at = sorted(self.attrs | set(re.findall(r'Fld::(\w+)', text)))
        o = ['#[derive(Clone, Copy)] pub enum Fld { %s }' % ', '.join(at)]
        lits = dict(self.lits)
        for n in sorted(set(re.findall(r'\b(lit_\w+)\(\)', self.spec.prelude + ' '.join(str(f) for f in self.spec.fns.values())))):
            if n not in lits.values(): lits[('spec', n)] = n
        for i, ((ty, s), n) in enumerate(sorted(lits.items(), key=lambda z: z[1])):
            o.append('pub open spec fn %s() -> PV { PV::Str(%d) } // %s %r' % (n, i, ty, s))
            o.append('#[verifier::external_body] pub fn %s_x() -> (r: V) ensures r.g@ == %s() { unimplemented!() }' % (n, n))
        for f, v in sorted(self.consts.items()): o.append('#[verifier::external_body] pub fn %s() -> (r: V) ensures r.g@ == %s { unimplemented!() }' % (f, v))
        return '\n'.join(o)

def gen(data, spec, vac, here):
    tr = Py(data, spec, vac); out = []
    for k in spec.order:
        if k not in tr.fns: raise Unsupported('function %s not found in the source' % k)
        out.append(tr.function(k, spec.fns[k]))
    body = '\n\n'.join(out)
    txt = '#![allow(warnings)]\nuse vstd::prelude::*;\nverus! {\n' + tr.tables(spec.prelude + body) + '\n' + open(here + '/pyprelude.rs').read()
    txt += '\n// ---- specification\n' + spec.prelude + '\n// ---- translated functions\n' + body
    if vac: txt += '\npub uninterp spec fn lcv_vac(k: int) -> bool;\n'
    return tr, txt + '\nfn main() {}\n}\n'
