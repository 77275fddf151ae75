"""Loads the real modules of /repo and interprets their functions on symbolic values.

Each module is parsed from the working tree; every function body is replaced by a call to the interpreter (signatures,
defaults, decorators, classes, inheritance and properties stay those of the source and are run by CPython).  Function bodies are
interpreted from their AST; nothing else of the source is dropped or rewritten."""
import ast, builtins, os, re, sys, types, importlib
from vx.sym import *
from vx import sym
from vx import mat
from vx.mat import vx_getattr, mat_len, SBMat
from vx.core import *

REPO = os.environ.get('VX_REPO', '/repo')

class _Return(Exception):
    def __init__(self, v): self.v = v
class _Break(Exception): pass
class _Continue(Exception): pass
class Poison:
    """value that is not known (reading it is an error of the verifier, not of the code)"""
    def __init__(self, why): self.why = why

FUNCS = {}
class FuncInfo:
    def __init__(self, node, module, qual, cls):
        self.node, self.module, self.qual, self.cls = node, module, qual, cls
        self.locals_ = None

class Loader:
    """module table of one verification run"""
    def __init__(self, stubs):
        self.mods = {}
        self.stubs = stubs         # name -> module object
        self.src = {}
    def path(self, name):
        p = os.path.join(REPO, *name.split('.'))
        for q in (p + '.py', os.path.join(p, '__init__.py')):
            if os.path.isfile(q): return q
        return None
    def load(self, name):
        if name in self.mods: return self.mods[name]
        if name in self.stubs:
            self.mods[name] = self.stubs[name]
            return self.stubs[name]
        p = self.path(name)
        if p is None:
            raise ImportError('No module named %r' % name)
        m = types.ModuleType(name)
        m.__file__ = p
        m.__package__ = name if p.endswith('__init__.py') else name.rpartition('.')[0]
        if p.endswith('__init__.py'): m.__path__ = [os.path.dirname(p)]
        self.mods[name] = m
        if '.' in name:
            parent, _, leaf = name.rpartition('.')
            try: self.load(parent)
            except BaseException:
                self.mods.pop(name, None)
                raise
            if self.mods.get(name) is not m: return self.mods[name]
        src = open(p, encoding='utf-8').read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src, p)
        self.src[name] = src
        tr = _Stubber(name)
        tree = tr.visit(tree)
        ast.fix_missing_locations(tree)
        b = dict(vars(builtins))
        b.update(BUILTINS)
        b['__import__'] = self.import_
        m.__dict__['__builtins__'] = b
        m.__dict__['__vx__'] = vx_call
        code = compile(tree, p, 'exec')
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if '.' in name:
            setattr(self.mods[name.rpartition('.')[0]], name.rpartition('.')[2], m)
        return m
    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__'].split('.')
            pkg = pkg[:len(pkg) - (level - 1)]
            name = '.'.join(pkg + ([name] if name else []))
        if name.split('.')[0] in PASS and name not in self.stubs:
            return builtins.__import__(name, None, None, fromlist, 0)
        m = self.load(name)
        if fromlist:
            for f in fromlist:
                if f != '*' and not hasattr(m, f):
                    try: setattr(m, f, self.load(name + '.' + f))
                    except ImportError: pass
            return m
        # import a.b  -> a
        parts = name.split('.')
        top = self.load(parts[0])
        for i in range(1, len(parts)): self.load('.'.join(parts[:i + 1]))
        return top
PASS = {'pkgutil', 'copy', 'operator', 'itertools', 'functools', 'collections', 're', 'os', 'sys', 'time', 'datetime', 'random', 'string', 'subprocess', 'ctypes',
        'tempfile', 'shutil', 'warnings', 'abc', 'types', 'typing', 'colorsys', 'textwrap', 'fractions', 'numbers', 'glob', 'logging', 'json', '__future__', 'xml', 'zipfile', 'pickle', 'inspect', 'weakref', 'enum', 'contextlib', 'dataclasses', 'io', 'pprint', 'platform', 'hashlib', 'cmath', 'decimal', 'struct'}

class _Stubber(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module; self.stack = []; self.cls = None
    def visit_ClassDef(self, n):
        oc = self.cls
        self.cls = n.name; self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop(); self.cls = oc
        return n
    def visit_FunctionDef(self, n):
        has_yield = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in _walk_own(n))
        if has_yield: return n
        qual = self.module + '.' + '.'.join(self.stack + [n.name])
        key = qual
        k = 2
        while key in FUNCS and FUNCS[key].node is not n and FUNCS[key].module == self.module and getattr(FUNCS[key], 'gen', None) is self:
            key = '%s#%d' % (qual, k); k += 1
        fi = FuncInfo(ast.FunctionDef(name=n.name, args=n.args, body=n.body, decorator_list=[], lineno=n.lineno), self.module, key, self.cls)
        fi.gen = self
        FUNCS[key] = fi
        call = 'return __vx__(%r, locals(), %s, globals())' % (key, '__class__' if self.cls else 'None')
        body = ast.parse('def f():\n ' + call).body[0].body
        n2 = ast.FunctionDef(name=n.name, args=n.args, body=body, decorator_list=n.decorator_list, returns=None, type_comment=None)
        return ast.copy_location(n2, n)
def _walk_own(fn):
    """nodes of a function without its nested functions"""
    todo = list(fn.body)
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
        todo += list(ast.iter_child_nodes(x))

def vx_call(key, loc, cls, glob):
    fi = FUNCS[key]
    c = Ctx.cur
    if c is not None:
        c.funcs.add(key)
        h = c.contracts.get(key)
        if h is not None and c.name != key:
            args = dict(loc); args.pop('__class__', None)
            r = h(**args)
            if r is not NotImplemented:
                c.used_contracts.add(key)
                return r
    loc = dict(loc)
    loc.pop('__class__', None)
    fr = Frame(fi, loc, glob, cls, None)
    try:
        fr.block(fi.node.body)
    except _Return as r:
        return r.v
    return None

# --------------------------------------------------------------------------- interpretation
class Frame:
    def __init__(self, fi, loc, glob, cls, parent):
        self.fi, self.loc, self.glob, self.cls, self.parent = fi, loc, glob, cls, parent
        self.globals_decl = set(); self.nonlocals = set()
    # names
    def lookup(self, name):
        f = self
        while f is not None:
            if name in f.loc and name not in f.globals_decl:
                v = f.loc[name]
                if isinstance(v, Poison): raise Unsupported('value of %s is not known here (%s)' % (name, v.why))
                return v
            f = f.parent
        if name in self.glob: return self.glob[name]
        b = self.glob['__builtins__']
        if name in b: return b[name]
        if name == '__class__': return self.cls
        raise NameError("name '%s' is not defined" % name)
    def setname(self, name, v):
        if name in self.globals_decl: self.glob[name] = v; return
        if name in self.nonlocals:
            f = self.parent
            while f is not None:
                if name in f.loc: f.loc[name] = v; return
                f = f.parent
        self.loc[name] = v
    def mangle(self, a):
        if a.startswith('__') and not a.endswith('__') and self.fi.cls: return '_%s%s' % (self.fi.cls.lstrip('_'), a)
        return a
    # statements
    def block(self, body):
        for s in body: self.stmt(s)
    def stmt(self, s):
        k = type(s).__name__
        m = getattr(self, 's_' + k, None)
        if m is None: raise Unsupported('statement %s' % k)
        return m(s)
    def s_Expr(self, s): self.ev(s.value)
    def s_Pass(self, s): pass
    def s_Global(self, s): self.globals_decl.update(s.names)
    def s_Nonlocal(self, s): self.nonlocals.update(s.names)
    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets: self.assign(t, v)
    def s_AnnAssign(self, s):
        if s.value is not None: self.assign(s.target, self.ev(s.value))
    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name): old = self.lookup(t.id)
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value); old = vx_getattr(obj, self.mangle(t.attr))
        else:
            obj = self.ev(t.value); idx = self.index(t.slice); old = getitem(obj, idx)
        v = self.ev(s.value)
        op = type(s.op).__name__
        new = binop(op, old, v, inplace=True)
        if isinstance(t, ast.Name): self.setname(t.id, new)
        elif isinstance(t, ast.Attribute): vx_setattr(obj, self.mangle(t.attr), new)
        else: setitem(obj, idx, new)
    def assign(self, t, v):
        if isinstance(t, ast.Name): self.setname(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                vs = list(v)
                i = [isinstance(e, ast.Starred) for e in t.elts].index(True)
                n = len(t.elts) - 1
                if len(vs) < n: raise ValueError('not enough values to unpack')
                parts = vs[:i] + [vs[i:len(vs) - (n - i)]] + vs[len(vs) - (n - i):]
                for e, x in zip(t.elts, parts): self.assign(e.value if isinstance(e, ast.Starred) else e, x)
                return
            vs = list(v)
            if len(vs) != len(t.elts): raise ValueError('too many values to unpack' if len(vs) > len(t.elts) else 'not enough values to unpack')
            for e, x in zip(t.elts, vs): self.assign(e, x)
        elif isinstance(t, ast.Attribute): vx_setattr(self.ev(t.value), self.mangle(t.attr), v)
        elif isinstance(t, ast.Subscript): setitem(self.ev(t.value), self.index(t.slice), v)
        else: raise Unsupported('assignment target')
    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name): del self.loc[t.id]
            elif isinstance(t, ast.Attribute): delattr(self.ev(t.value), self.mangle(t.attr))
            else:
                o = self.ev(t.value)
                if isinstance(o, SList): raise Unsupported('del in a symbolic list')
                if isinstance(o, (list, dict)): Ctx.cur.touch(o)
                del o[self.index(t.slice)]
    def s_If(self, s):
        c = self.ev(s.test)
        if isinstance(c, SBool) and Ctx.cur.recorders and is_noise(s):
            return
        if truth(c): self.block(s.body)
        else: self.block(s.orelse)
    def s_Assert(self, s):
        if not truth(self.ev(s.test)): raise AssertionError(self.ev(s.msg) if s.msg else '')
    def s_Return(self, s):
        raise _Return(self.ev(s.value) if s.value is not None else None)
    def s_Raise(self, s):
        if s.exc is None: raise
        e = self.ev(s.exc)
        if s.cause is not None: raise e from self.ev(s.cause)
        raise e
    def s_Break(self, s): raise _Break()
    def s_Continue(self, s): raise _Continue()
    def s_Import(self, s):
        imp = self.glob['__builtins__']['__import__']
        for a in s.names:
            m = imp(a.name, self.glob)
            if a.asname:
                for p in a.name.split('.')[1:]: m = getattr(m, p)
                self.setname(a.asname, m)
            else: self.setname(a.name.split('.')[0], m)
    def s_ImportFrom(self, s):
        imp = self.glob['__builtins__']['__import__']
        m = imp(s.module or '', self.glob, None, [a.name for a in s.names], s.level)
        for a in s.names:
            if a.name == '*':
                for k, v in vars(m).items():
                    if not k.startswith('_'): self.setname(k, v)
                continue
            if not hasattr(m, a.name): raise ImportError('cannot import name %r from %r' % (a.name, s.module))
            self.setname(a.asname or a.name, getattr(m, a.name))
    def s_FunctionDef(self, s):
        f = self.closure(s.args, s.body, s.name)
        for d in reversed(s.decorator_list): f = self.ev(d)(f)
        self.setname(s.name, f)
    def s_ClassDef(self, s): raise Unsupported('class in a function')
    def s_With(self, s):
        if len(s.items) != 1: raise Unsupported('with')
        cm = self.ev(s.items[0].context_expr)
        v = cm.__enter__()
        if s.items[0].optional_vars is not None: self.assign(s.items[0].optional_vars, v)
        try:
            self.block(s.body)
        except (_Return, _Break, _Continue):
            cm.__exit__(None, None, None); raise
        except Unsupported: raise
        except Exception as e:
            if not cm.__exit__(type(e), e, e.__traceback__): raise
        else:
            cm.__exit__(None, None, None)
    def s_Try(self, s):
        try:
            try:
                self.block(s.body)
            except (_Return, _Break, _Continue, Unsupported): raise
            except Exception as e:
                for h in s.handlers:
                    if h.type is None or isinstance(e, self.ev(h.type)):
                        if h.name: self.setname(h.name, e)
                        self.block(h.body)
                        break
                else: raise
            else:
                self.block(s.orelse)
        finally:
            if s.finalbody: self.block(s.finalbody)
    def s_While(self, s):
        from vx import loops
        return loops.do_while(self, s)
    def s_For(self, s):
        from vx import loops
        return loops.do_for(self, s)
    # expressions
    def ev(self, e):
        k = type(e).__name__
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Unsupported('expression %s' % k)
        return m(e)
    def e_Constant(self, e): return e.value
    def e_Name(self, e): return self.lookup(e.id)
    def e_NamedExpr(self, e):
        v = self.ev(e.value); self.assign(e.target, v); return v
    def e_Attribute(self, e):
        return vx_getattr(self.ev(e.value), self.mangle(e.attr))
    def e_Subscript(self, e): return getitem(self.ev(e.value), self.index(e.slice))
    def index(self, s):
        return self.ev(s)
    def e_Slice(self, e):
        g = lambda x: None if x is None else self.ev(x)
        return slice(g(e.lower), g(e.upper), g(e.step))
    def e_Tuple(self, e): return tuple(self.elts(e.elts))
    def e_List(self, e):
        r = list(self.elts(e.elts))
        Ctx.cur.register_birth(r)
        return r
    def e_Set(self, e): return set(self.elts(e.elts))
    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred): out += list(self.ev(x.value))
            else: out.append(self.ev(x))
        return out
    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None: d.update(self.ev(v))
            else: d[self.ev(k)] = self.ev(v)
        Ctx.cur.register_birth(d)
        return d
    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool): return mk_bool(f_not(v.form))
            return not truth(v)
        if isinstance(e.op, ast.USub): return -v
        if isinstance(e.op, ast.UAdd): return +v
        return ~v
    def e_BinOp(self, e):
        return binop(type(e.op).__name__, self.ev(e.left), self.ev(e.right))
    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        acc = None   # symbolic prefix
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            if acc is not None:
                # the evaluation of the next operand is guarded by acc: only pure boolean operands are merged
                if not pure(x):
                    if isand:
                        if not Ctx.cur.decide(acc): return False
                    else:
                        if Ctx.cur.decide(acc): return True
                    acc = None
            v = self.ev(x)
            if isinstance(v, SBool):
                acc = v.form if acc is None else (f_and(acc, v.form) if isand else f_or(acc, v.form))
                if acc == F and isand: return False
                if acc == T and not isand: return True
                if last: return mk_bool(acc)
                continue
            if acc is not None:
                f = form_of(v)
                acc = f_and(acc, f) if isand else f_or(acc, f)
                if acc in (T, F) and (acc == F) == isand: return acc == T
                if last: return mk_bool(acc)
                continue
            if last: return v
            t = truth(v)
            if isand and not t: return v
            if not isand and t: return v
        return v
    def e_Compare(self, e):
        left = self.ev(e.left)
        acc = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r)
            v = compare(type(op).__name__, left, right)
            if len(e.ops) == 1: return v
            f = form_of(v)
            acc = f if acc is None else f_and(acc, f)
            if acc == F: return False
            left = right
        return mk_bool(acc)
    def e_IfExp(self, e):
        c = self.ev(e.test)
        if isinstance(c, SBool) and pure(e.body) and pure(e.orelse):
            g = Ctx.cur.all()
            if entails(g, c.form): return self.ev(e.body)
            if entails(g, f_not(c.form)): return self.ev(e.orelse)
            if not Ctx.cur.recorders: pass
            a = self.under(c.form, e.body); b = self.under(f_not(c.form), e.orelse)
            if a is not None and b is not None and isinstance(a[0], (SReal, float, Fraction)) or (a and b and is_num(a[0]) and is_num(b[0]) and not (is_int(a[0]) and is_int(b[0]))):
                return value_ite(c.form, a[0], b[0])
        return self.ev(e.body) if truth(c) else self.ev(e.orelse)
    def under(self, f, x):
        c = Ctx.cur
        n = len(c.gamma)
        p = (list(c.dec), c.pos, list(c.pending))
        c.gamma = c.gamma + [f]
        try:
            v = self.ev(x)
            if c.pos != p[1]:
                c.dec, c.pos, c.pending = p
                return None
            return (v,)
        except Unsupported: 
            c.dec, c.pos, c.pending = p
            return None
        except Exception:
            c.dec, c.pos, c.pending = p
            return None
        finally: c.gamma = [g for i, g in enumerate(c.gamma) if i != n]
    def e_Call(self, e):
        # zero argument super
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args and 'super' not in self.loc:
            first = self.fi.node.args.args[0].arg
            f = self
            while first not in f.loc: f = f.parent
            return super(self.cls, f.loc[first])
        if isinstance(e.func, ast.Name) and e.func.id == 'locals' and not e.args: return dict(self.loc)
        if isinstance(e.func, ast.Name) and e.func.id == 'globals' and not e.args: return self.glob
        fn = self.ev(e.func)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                args += list(v)
            else: args.append(self.ev(x))
        kw = {}
        for x in e.keywords:
            if x.arg is None: kw.update(self.ev(x.value))
            else: kw[x.arg] = self.ev(x.value)
        return call(fn, args, kw)
    def e_Lambda(self, e):
        return self.closure(e.args, None, '<lambda>', e.body)
    def closure(self, args, body, name, expr=None):
        outer = self
        defaults = [self.ev(d) for d in args.defaults]
        kwdef = [None if d is None else self.ev(d) for d in args.kw_defaults]
        names = [a.arg for a in args.posonlyargs + args.args]
        kwonly = [a.arg for a in args.kwonlyargs]
        def f(*a, **k):
            loc = {}
            for n, v in zip(names, a): loc[n] = v
            if len(a) > len(names):
                if args.vararg is None: raise TypeError('%s() takes %d positional arguments but %d were given' % (name, len(names), len(a)))
                loc[args.vararg.arg] = tuple(a[len(names):])
            elif args.vararg is not None: loc[args.vararg.arg] = ()
            extra = {}
            for n, v in k.items():
                if n in names or n in kwonly:
                    if n in loc: raise TypeError('multiple values for argument %r' % n)
                    loc[n] = v
                elif args.kwarg is not None: extra[n] = v
                else: raise TypeError('unexpected keyword argument %r' % n)
            if args.kwarg is not None: loc[args.kwarg.arg] = extra
            for n, d in zip(names[len(names) - len(defaults):], defaults):
                if n not in loc: loc[n] = d
            for n, d in zip(kwonly, kwdef):
                if n not in loc: loc[n] = d
            for n in names:
                if n not in loc: raise TypeError('missing argument %r' % n)
            fr = Frame(outer.fi, loc, outer.glob, outer.cls, outer)
            if expr is not None: return fr.ev(expr)
            try: fr.block(body)
            except _Return as r: return r.v
            return None
        f.__name__ = name
        return f
    def e_JoinedStr(self, e):
        return ''.join(str(self.ev(v)) for v in e.values)
    def e_FormattedValue(self, e):
        v = self.ev(e.value)
        spec = self.ev(e.format_spec) if e.format_spec else ''
        if e.conversion == 114: v = repr(v)
        elif e.conversion == 115: v = str(v)
        if isinstance(v, SReal) and v.kind in ('float', 'int'):
            if v.ge.light().isconst: return format(float(v.ge.light().constval), spec)
            m = _SPEC.fullmatch('%' + (spec or 's'))
            return real_token(v, (m['prec'], m['conv'])) if m else repr(v)
        return format(v, spec)
    def comp(self, e, kind):
        from vx import loops
        return loops.comprehension(self, e, kind)
    def e_ListComp(self, e): return self.comp(e, 'list')
    def e_GeneratorExp(self, e): return self.comp(e, 'gen')
    def e_SetComp(self, e): return self.comp(e, 'set')
    def e_DictComp(self, e): return self.comp(e, 'dict')
    def e_Starred(self, e): raise Unsupported('starred expression')

NOISE_FUNCS = {'print', 'warn', 'warning'}
def is_noise(s):
    """an `if` whose body only prints or warns does not change the state"""
    def ok(b):
        for x in b:
            if isinstance(x, ast.Pass): continue
            if isinstance(x, ast.If) and ok(x.body) and ok(x.orelse): continue
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call):
                f = x.value.func
                n = f.id if isinstance(f, ast.Name) else (f.attr if isinstance(f, ast.Attribute) else '')
                if n in NOISE_FUNCS: continue
            return False
        return True
    return ok(s.body) and ok(s.orelse)
def pure(x):
    """expression without side effects that may be evaluated speculatively"""
    for n in ast.walk(x):
        if isinstance(n, (ast.Call, ast.NamedExpr, ast.Lambda, ast.ListComp, ast.GeneratorExp)):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('len', 'abs', 'isinstance', 'float', 'int', 'min', 'max'): continue
            return False
    return True
def truth(v):
    if isinstance(v, bool): return v
    if isinstance(v, SBool): return Ctx.cur.decide(v.form)
    if isinstance(v, SList): return Ctx.cur.decide(f_lt(0, v.n))
    if isinstance(v, (SSeq, SRange)): return Ctx.cur.decide(f_lt(0, v.count()))
    if isinstance(v, SMat):
        if v.rows_ == IP1 and v.cols_ == IP1: return bool(v.scal(0, 0))
        if v.tag == 'mp': return truth(mat_len(v))
        raise ValueError('The truth value of an array with more than one element is ambiguous')
    return bool(v)
import operator as _op
_BIN = {'Add': _op.add, 'Sub': _op.sub, 'Mult': _op.mul, 'Div': _op.truediv, 'FloorDiv': _op.floordiv, 'Mod': _op.mod, 'Pow': _op.pow,
        'BitAnd': _op.and_, 'BitOr': _op.or_, 'BitXor': _op.xor, 'LShift': _op.lshift, 'RShift': _op.rshift, 'MatMult': _op.matmul}
_IBIN = {'Add': _op.iadd, 'Sub': _op.isub, 'Mult': _op.imul, 'Div': _op.itruediv, 'FloorDiv': _op.ifloordiv, 'Mod': _op.imod, 'Pow': _op.ipow,
         'BitAnd': _op.iand, 'BitOr': _op.ior, 'BitXor': _op.ixor, 'LShift': _op.ilshift, 'RShift': _op.irshift, 'MatMult': _op.imatmul}
def binop(op, a, b, inplace=False):
    if isinstance(a, Fraction) or isinstance(b, Fraction): pass
    if op == 'Mod' and isinstance(a, str):
        return sym_format(a, b)
    if op == 'Mult':
        if isinstance(a, list) and isinstance(b, SInt): return seq_repeat(a, b)
        if isinstance(b, list) and isinstance(a, SInt): return seq_repeat(b, a)
    if op == 'Add' and (isinstance(a, SList) and isinstance(b, list) or isinstance(a, list) and isinstance(b, SList)):
        return seq_concat(a, b)
    if op == 'Pow' and isinstance(a, int) and not isinstance(a, bool) and isinstance(b, (SReal, SInt)):
        return to_real(a) ** b
    if op in ('Add', 'Sub', 'Mult', 'Div') and isinstance(a, float) and isinstance(b, float):
        return _BIN[op](a, b)
    if inplace:
        if isinstance(a, list) and op == 'Add':
            if isinstance(b, (SList, SSeq, SRange)): return seq_concat(a, b)
            Ctx.cur.touch(a)
            a += list(b)
            return a
        return _IBIN[op](a, b)
    return _BIN[op](a, b)
_SPEC = re.compile(r'%(\((?P<key>[^)]*)\))?[-+ #0]*\d*(\.(?P<prec>\d+))?(?P<conv>[diouxXeEfFgGcrsa%])')
def sym_format(s, b):
    """% formatting: symbolic values are shown as tokens, unique for each value (and format, when it is not exact)"""
    def cv(x, spec):
        if isinstance(x, SInt):
            v = forced_const(x.ip)
            if v is not None: return v
            if spec[2] == '' and spec[1] in 'eEfFgG': return Tok(real_token(sym.to_real(x), spec[:2]))
            if spec[2] not in ('', '+') or spec[1] not in 'disr': raise Unsupported('format of an integer')
            return Tok(sym.int_token(x, spec[2]))
        if isinstance(x, SReal):
            if x.ge.light().isconst: return float(x.ge.light().constval)
            if x.kind not in ('float', 'int'): return Tok(repr(x))
            if x.kind == 'int' and '+' == spec[2]: return Tok(sym.int_token(x, '+'))
            return Tok(real_token(x, spec[:2]))
        if isinstance(x, (SBool, SMat)): return Tok(repr(x))
        return x
    specs = [m for m in _SPEC.finditer(s) if m['conv'] != '%']
    sp = lambda m: (m['prec'], m['conv'], m[0][1 + len(m[1] or ''):-1])
    if isinstance(b, dict): b = {k: cv(v, next((sp(m) for m in specs if m['key'] == k), (None, 's', ''))) for k, v in b.items()}
    else:
        t = b if isinstance(b, tuple) else (b,)
        if len(t) == len(specs): t = tuple(cv(x, sp(m)) for x, m in zip(t, specs))
        else: t = tuple(cv(x, (None, 's', '')) for x in t)
        b = t if isinstance(b, tuple) else t[0]
    vals = list(b.values()) if isinstance(b, dict) else b if isinstance(b, tuple) else (b,)
    if any(isinstance(x, Tok) for x in vals):
        it = iter(vals)
        def rep(m):
            if m['conv'] == '%': return m[0]
            x = b[m['key']] if m['key'] is not None else next(it)
            return '%' + (m[1] or '') + 's' if isinstance(x, Tok) else m[0]
        s = _SPEC.sub(rep, s)
    return s % b
def real_token(x, spec):
    prec, conv = spec
    g = x.ge.light()
    exact = conv in 'rsa' or conv == 'd' and (x.kind == 'int' or ge_to_ip(g) is not None or integral(g)) or conv in 'gGeE' and prec is not None and int(prec) >= 17
    return sym.num_text(x, '%d.5' if exact else '%d.25', None if exact else '.'.join(map(str, spec)))
class Tok(str): pass
_CMP = {'Eq': _op.eq, 'NotEq': _op.ne, 'Lt': _op.lt, 'LtE': _op.le, 'Gt': _op.gt, 'GtE': _op.ge}
def compare(op, a, b):
    if op == 'Is': return (a is b) or (isinstance(a, SBool) is isinstance(b, SBool) is True and a is b)
    if op == 'IsNot': return a is not b
    if op in ('In', 'NotIn'):
        r = contains(a, b)
        if op == 'In': return r
        return mk_bool(f_not(form_of(r)))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and type(a) == type(b) and op in ('Eq', 'NotEq'):
        f = seq_eq(a, b)
        return mk_bool(f) if op == 'Eq' else mk_bool(f_not(f))
    return _CMP[op](a, b)
def seq_eq(a, b):
    if len(a) != len(b): return F
    f = T
    for x, y in zip(a, b):
        if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)) and type(x) == type(y): r = seq_eq(x, y)
        elif x is y: r = T
        else: r = form_of(x == y)
        f = f_and(f, r)
        if f == F: return F
    return f
def contains(a, b):
    if isinstance(b, SRange):
        k = IP.of(a)
        if abs(b.step) == 1:
            lo, hi = (b.lo, b.hi) if b.step == 1 else (b.hi + 1, b.lo + 1)
            return mk_bool(f_and(f_le(lo, k), f_lt(k, hi)))
        raise Unsupported('in stepped range')
    if isinstance(b, (list, tuple, set, frozenset)) and (isinstance(a, (SInt, SReal)) or any(isinstance(x, (SInt, SReal)) for x in b)):
        f = F
        for x in b: f = f_or(f, form_of(a == x))
        return mk_bool(f)
    if isinstance(b, (SList, SSeq)): raise Unsupported('membership in a symbolic list')
    return a in b
def getitem(o, k):
    if isinstance(o, (list, tuple, str)) and isinstance(k, (SInt, slice)):
        if isinstance(k, SInt):
            v = forced_const(k.ip)
            if v is None:
                if isinstance(o, str): raise Unsupported('symbolic index in a string')
                n, f = seq_of(o)
                return f(check_index(k, n))
            k = v
        else:
            def cc(x):
                if isinstance(x, SInt):
                    v = forced_const(x.ip)
                    if v is None: raise Unsupported('symbolic slice of a list')
                    return v
                return x
            k = slice(cc(k.start), cc(k.stop), cc(k.step))
    if isinstance(o, SSeq):
        if isinstance(k, slice):
            lo, hi, st = slice_bounds(k, o.n)
            if st == 1: return SSeq(hi - lo, lambda i: o.fn(i + lo))
            if st == -1: return SSeq(hi - lo, lambda i: o.fn(hi - 1 - i))
            raise Unsupported('slice of sequence')
        return o.fn(check_index(k, o.n))
    if isinstance(o, SList) and isinstance(k, slice) and k.step == -1:
        lo, hi, st = slice_bounds(k, o.n)
        f = o.st.fn
        return SList(hi - lo, lambda i: f(hi - 1 - i))
    if isinstance(o, SRange):
        n = o.count()
        if isinstance(k, slice):
            lo, hi, st = slice_bounds(k, n)
            if st == -1: return SSeq(hi - lo, lambda i: o.elem(hi - 1 - i))
            return SSeq(hi - lo, lambda i: o.elem(i + lo))
        return o.elem(check_index(k, n))
    if isinstance(o, dict) and isinstance(k, tuple): pass
    return o[k]
def setitem(o, k, v):
    if isinstance(o, list):
        if isinstance(k, SInt):
            kk = forced_const(k.ip)
            if kk is None: raise Unsupported('symbolic index in a concrete list')
            k = kk
        Ctx.cur.touch(o)
    elif isinstance(o, dict): Ctx.cur.touch(o)
    o[k] = v
def vx_setattr(o, name, v):
    if getattr(o, '__dict__', {}).get('_vx_copy'): raise Unsupported('an element of a symbolic list is changed in place')
    if Ctx.cur is not None and Ctx.cur.recorders and hasattr(o, '__dict__') and not isinstance(getattr(type(o), name, None), property):
        Ctx.cur.touch(AttrRef(o, name))
    setattr(o, name, v)
class AttrRef:
    def __init__(self, o, name): self.o, self.name = o, name
_MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'clear', 'update', 'setdefault', 'popitem'}
def call(fn, args, kw):
    s = getattr(fn, '__self__', None)
    if isinstance(s, (list, dict)) and getattr(fn, '__name__', '') in _MUT:
        Ctx.cur.touch(s)
        if isinstance(s, list) and fn.__name__ == 'sort':
            return sym_sort(s, **kw)
    if isinstance(s, str) and fn.__name__ == 'join':
        return s.join([str(x) if isinstance(x, Tok) else x for x in args[0]])
    if isinstance(s, str) and fn.__name__ == 'format':
        return fn(*args, **kw)
    if type(fn) is type and fn.__module__.startswith('fixif'):
        o = fn.__new__(fn, *args, **kw)
        if isinstance(o, fn):
            Ctx.cur.register_birth(o)
            fn.__init__(o, *args, **kw)
        return o
    return fn(*args, **kw)
def sym_sort(s, key=None, reverse=False):
    ks = [key(x) if key else x for x in s]
    if len(ks) > 6 and any(isinstance(k, (SReal, SInt)) for k in ks): raise Unsupported('sort of many symbolic keys')        # each comparison is decided, or the path forks
    list.sort(s, key=key, reverse=reverse)

# --------------------------------------------------------------------------- builtins
class _Meta(type):
    def __instancecheck__(cls, x): return cls._check(x)
    def __subclasscheck__(cls, c): return c in cls._subs
class sint(metaclass=_Meta):
    __name__ = 'int'; _subs = (int,)
    @staticmethod
    def _check(x): return isinstance(x, SInt) or builtins.isinstance(x, int) or (isinstance(x, SReal) and x.kind == 'int')
    def __new__(cls, x=0, *a):
        if isinstance(x, SInt): return x
        if isinstance(x, SReal):
            if x.kind == 'int': return x
            return real_to_int(x)
        if isinstance(x, SBool): return 1 if bool(x) else 0
        if isinstance(x, SMat): return sint(to_real(x))
        return int(x, *a)
def integral(g):
    """a sum of integer parts"""
    return all(t.c.denominator == 1 and not t.bv and all(a.name in ('ceil', 'floor') or a.name.startswith('iext!') for a in t.at) for t in g.terms)
def real_to_int(x):
    """int(x): truncation"""
    g = x.ge.light()
    ip = ge_to_ip(g)
    if ip is not None: return mk_int(ip)
    if g.isconst: return int(g.constval)
    if g.terms and integral(g): return SReal(g, 'int')
    c = Ctx.cur
    fl = c.memo.get(('isint', g))
    if fl is not None: return fl
    if c.decide(f_rc('>=', g)): return real_floor(x)
    return -real_floor(-x)
def real_floor(x):
    x = to_real(x)
    g = x.ge.light()
    ip = ge_to_ip(g)
    if ip is not None: return mk_int(ip)
    if g.isconst: return g.constval.__floor__()
    c = Ctx.cur
    if c.memo.get('real parts'): return SReal(GE.atom('floor', g), 'int')          # an integer given as a function of the real number
    key = ('floor', g)
    if key not in c.memo:
        m = IP.sym(fresh('fl'))
        c.memo[key] = m
        c.assume(f_rc('>=', g - GE.ofint(m)))
        c.assume(f_rc('>', GE.ofint(m) + 1 - g))
    return mk_int(c.memo[key])
def real_round(x):
    """nearest integer (either one at half-way: the code may not depend on it)"""
    x = to_real(x)
    g = x.ge.light()
    ip = ge_to_ip(g)
    if ip is not None: return mk_int(ip)
    if g.isconst: return round(g.constval)
    c = Ctx.cur
    key = ('round', g)
    if key not in c.memo:
        m = IP.sym(fresh('rn'))
        c.memo[key] = m
        c.assume(f_rc('>=', (g - GE.ofint(m)).scale(2) + 1))
        c.assume(f_rc('>=', (GE.ofint(m) - g).scale(2) + 1))
    return mk_int(c.memo[key])
def real_ceil(x):
    x = to_real(x)
    g = x.ge.light()
    ip = ge_to_ip(g)
    if ip is not None: return mk_int(ip)
    if g.isconst: return g.constval.__ceil__()
    c = Ctx.cur
    if c.memo.get('real parts'): return SReal(GE.atom('ceil', g), 'int')          # an integer given as a function of the real number
    key = ('ceil', g)
    if key not in c.memo:
        m = IP.sym(fresh('ce'))
        c.memo[key] = m
        c.assume(f_rc('>=', GE.ofint(m) - g))
        c.assume(f_rc('>', g + 1 - GE.ofint(m)))
    return mk_int(c.memo[key])
class sfloat(metaclass=_Meta):
    __name__ = 'float'; _subs = (float,)
    @staticmethod
    def _check(x): return builtins.isinstance(x, float) or (isinstance(x, SReal) and x.kind == 'float')
    def __new__(cls, x=0.0):
        if isinstance(x, SReal):
            if x.kind in ('mpf', 'sollya'): return SReal(mat.dbl(x.ge), 'float')
            return SReal(x.ge, 'float')
        if isinstance(x, SInt): return SReal(GE.ofint(x.ip), 'float')
        if isinstance(x, SBool): return SReal(GE1.guard(x.form), 'float')
        if isinstance(x, SMat): return sfloat(to_real(x))
        if isinstance(x, Fraction): return float(x)
        if isinstance(x, Tok): raise Unsupported('float of a token')
        return float(x)
class sbool(metaclass=_Meta):
    _subs = (bool,)
    @staticmethod
    def _check(x): return builtins.isinstance(x, (bool, SBool))
    def __new__(cls, x=False):
        if isinstance(x, SBool): return x
        if isinstance(x, (SInt, SReal)): return mk_bool(form_of(x))
        return truth(x)
class slist(metaclass=_Meta):
    _subs = (list,)
    @staticmethod
    def _check(x): return builtins.isinstance(x, (list, SList))
    def __new__(cls, x=()):
        if isinstance(x, (SList, SSeq, SRange)):
            n = forced_const(x.count())
            if n is None:
                f = x.elem
                return SList(x.count(), f)
            return [x.elem(IP.const(i)) for i in range(n)]
        if isinstance(x, SMat):
            n, f = mat.mat_seq(x)
            if forced_const(n) is None: return SList(n, f)
            return [f(IP.const(i)) for i in range(forced_const(n))]
        r = list(x)
        if Ctx.cur is not None: Ctx.cur.register_birth(r)
        return r
class stuple(metaclass=_Meta):
    _subs = (tuple,)
    @staticmethod
    def _check(x): return builtins.isinstance(x, tuple)
    def __new__(cls, x=()): return tuple(x)
class sstr(metaclass=_Meta):
    _subs = (str,)
    @staticmethod
    def _check(x): return builtins.isinstance(x, str)
    def __new__(cls, x='', *a):
        if isinstance(x, SInt) or isinstance(x, SReal) and x.kind == 'int': return sym.int_token(x)
        if isinstance(x, (SReal, SBool)): return Tok(repr(x))
        return str(x, *a)
class sdict(metaclass=_Meta):
    _subs = (dict,)
    @staticmethod
    def _check(x): return builtins.isinstance(x, dict)
    def __new__(cls, *a, **k): return dict(*a, **k)
class srange(metaclass=_Meta):
    _subs = (range,)
    @staticmethod
    def _check(x): return builtins.isinstance(x, (range, SRange))
    def __new__(cls, *a):
        for x in a:
            if not is_int(x) and not hasattr(x, '__index__'): raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)
            if isinstance(x, (SReal, float)): raise TypeError("'float' object cannot be interpreted as an integer")
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if isinstance(st, SInt):
            st = forced_const(st.ip)
            if st is None: raise Unsupported('range with a symbolic step')
        if st == 0: raise ValueError('range() arg 3 must not be zero')
        l, h = forced_const(IP.of(lo)), forced_const(IP.of(hi))
        if l is not None and h is not None: return range(l, h, st)
        return SRange(lo, hi, st)
def slen(x):
    if isinstance(x, (SList, SSeq, SRange)): return mk_int(x.count())
    if isinstance(x, SMat): return mat_len(x)
    if isinstance(x, SBMat): return mk_int(x.rows_)
    if isinstance(x, (mat._Flat,)): return mk_int(x.m.rows_)
    if hasattr(type(x), '__len__') and not isinstance(x, (list, tuple, str, dict, set, range)):
        return type(x).__len__(x) if not isinstance(x, type) else len(x)
    return len(x)
def sisinstance(x, t):
    if isinstance(t, tuple): return any(sisinstance(x, u) for u in t)
    if t is int: t = sint
    elif t is float: t = sfloat
    elif t is bool: t = sbool
    elif t is list: t = slist
    if t is range: return isinstance(x, (range, SRange))
    if t is complex: return isinstance(x, SReal) and x.kind == 'complex'
    return isinstance(x, t)
def stype(x, *a):
    if a: return type(x, *a)
    if isinstance(x, SInt): return sint
    if isinstance(x, SReal): return {'float': sfloat, 'int': sint, 'complex': scomplex}.get(x.kind) or _kindtype(x)
    if isinstance(x, SBool): return sbool
    if isinstance(x, SList): return slist
    if isinstance(x, SMat):
        from vx import libs
        return {'matrix': libs.np_matrix, 'array': libs.np_ndarray, 'mp': libs.mp_matrix}[x.tag]
    t = type(x)
    return {int: sint, float: sfloat, bool: sbool, list: slist, tuple: stuple, str: sstr, dict: sdict, complex: scomplex}.get(t, t)
def _kindtype(x):
    from vx import libs
    return libs.mpf_t if x.kind == 'mpf' else libs.mpc_t
def smin(*a, **k): return _minmax(a, k, True)
def smax(*a, **k): return _minmax(a, k, False)
def _minmax(a, k, mn):
    if len(a) == 1:
        it = a[0]
        if isinstance(it, SMat) and it.ndim_ == 2 and forced_const(it.rows_) is None and forced_const(it.cols_) == 1: it = SList(it.rows_, lambda i, m=it: m[mk_int(i), :])
        if isinstance(it, (SList, SSeq, SRange)) and forced_const(it.count()) is None: return _extreme(it, k, mn)
        a = list(it)
        if not a:
            if 'default' in k: return k['default']
            raise ValueError('min() arg is an empty sequence' if mn else 'max() arg is an empty sequence')
    key = k.get('key') or (lambda x: x)
    r = a[0]
    for x in a[1:]:
        c = (key(x) < key(r)) if mn else (key(x) > key(r))
        if truth(c): r = x
    return r
EXTREMES = {}          # extreme values of generic elements: name -> (is it a minimum, number of elements, element)
def _extreme(it, k, mn):
    """extreme element of a sequence of symbolic length: one of its elements (a witness), which bounds all of them"""
    from vx import loops
    c = Ctx.cur
    n, f = it.count(), it.elem
    key = k.get('key') or (lambda x: x)
    if not c.decide(f_ge(IP.of(n) - 1)):
        if 'default' in k: return k['default']
        raise ValueError('min() arg is an empty sequence' if mn else 'max() arg is an empty sequence')
    i = fresh('q')
    if c.loop_syms:          # inside a generic element: a function of the generic indices, whose definition is kept in the memo
        v = loops.generic_elem(lambda t: to_real(key(f(t))), i, n)
        if 'key' in k: raise Unsupported('min/max with a key in a generic element')
        ks = tuple(x for x in c.loop_syms if x in v.ge.syms() | IP.of(n).syms())
        gen = {x: IP.sym('$%d' % y) for y, x in enumerate(ks)}
        tpl = (mn, IP.of(n).subst(gen), v.ge.subst(dict(gen, **{i: IP.sym('$i')})).light())
        nm = next((x for x, t in EXTREMES.items() if t == tpl), None)
        if nm is None:
            nm = fresh('iext' if integral(tpl[2]) else 'ext')
            EXTREMES[nm] = tpl
        return SReal(GE.atom(nm, *[IP.sym(x) for x in ks]), v.kind)
    j = fresh('mx')
    c.assume(f_and(f_ge(IP.sym(j)), f_lt(IP.sym(j), n)))
    v, r = loops.generic_elem(lambda t: to_real(key(f(t))), i, n), f(IP.sym(j))
    d = to_real(key(r)).ge - v.ge
    c.assume(('all', (i,), f_implies(f_and(f_ge(IP.sym(i)), f_lt(IP.sym(i), n)), f_rc('>=', -d if mn else d))))
    return r
def ssum(it, start=0):
    from vx import loops
    if isinstance(it, loops.Bag): return start + it.sum()
    n, f = seq_of(it) if isinstance(it, (SList, SSeq, SRange, SMat)) else (None, None)
    if n is not None and forced_const(n) is None:
        k = fresh('s')
        v = loops.generic_elem(f, k, n)
        if isinstance(v, (SReal, SInt, float, int)):
            r = to_real(v)
            if r.kind in ('mpf', 'mpc'): raise Unsupported('rounded sum over a symbolic sequence')
            tot = r.ge.sum(k, 0, n)
            if isinstance(start, SMat): raise Unsupported('sum')
            tot = SReal(tot, r.kind)
            if not (isinstance(start, int) and start == 0): tot = tot + start
            return tot
        if isinstance(v, SMat):
            m = SMat.gen(v.rows_, v.cols_, lambda i, j: v.entry(i, j).sum(k, 0, n), v.tag, v.ek, v.ndim_)
            return m if (isinstance(start, int) and start == 0) else start + m
        raise Unsupported('sum of symbolic sequence')
    if n is not None: it = [f(IP.const(i)) for i in range(forced_const(n))]
    r = start
    for x in it: r = r + x
    return r
def _quant(it, isall):
    from vx import loops
    if isinstance(it, SBMat): return it.all() if isall else it.any()
    if isinstance(it, SMat): return it.all() if isall else it.any()
    if isinstance(it, (SList, SSeq, SRange)) and forced_const(it.count()) is None:
        k = fresh('q'); n = it.count()
        if getattr(it, 'nest', None) is not None:
            q0, n, r0, w, v = it.nest
            m = fresh('q')
            f = f_subst(form_of(v), {q0: IP.sym(k), r0: IP.sym(m)})
            vs = (k, m)
            rng = f_and(f_ge(IP.sym(k)), f_lt(k, n), f_ge(IP.sym(m)), f_lt(m, w))
        else:
            v = loops.generic_elem(it.elem, k, n)
            f = form_of(v)
            vs = (k,)
            rng = f_and(f_ge(IP.sym(k)), f_lt(k, n))
        if isall:
            if Ctx.cur.entails(f_implies(rng, f)): return True
            return mk_bool(('all', vs, f_implies(rng, f)))
        if Ctx.cur.entails(f_implies(rng, f_not(f))): return False
        return mk_bool(f_not(('all', vs, f_implies(rng, f_not(f)))))
    if isinstance(it, loops.Bag):
        vs, f = tuple(k for k, _ in it.vars), form_of(it.value)
        rng = f_and(it.range(), it.cond)
        if isall:
            if Ctx.cur.entails(f_implies(rng, f)): return True
            return mk_bool(('all', vs, f_implies(rng, f)))
        if Ctx.cur.entails(f_implies(rng, f_not(f))): return False
        return mk_bool(f_not(('all', vs, f_implies(rng, f_not(f)))))
    acc = None
    for x in it:
        f = form_of(x) if not isinstance(x, (str, list, tuple, dict)) else (T if x else F)
        if isall and f == F: return False
        if not isall and f == T: return True
        acc = f if acc is None else (f_and(acc, f) if isall else f_or(acc, f))
    if acc is None: return isall
    return mk_bool(acc)
def sall(it): return _quant(it, True)
def sany(it): return _quant(it, False)
def sabs(x):
    if isinstance(x, SMat): raise Unsupported('abs of a matrix')
    return abs(x)
def sround(x, n=None):
    if isinstance(x, (SReal, SInt)):
        if n is not None: raise Unsupported('round to digits')
        if isinstance(x, SInt): return x
        return real_round(x)
    return round(x) if n is None else round(x, n)
def sprint(*a, **k): pass
def senumerate(it, start=0):
    if isinstance(it, (SList, SSeq, SRange, SMat, mat._Flat)):
        n, f = (it.count(), it.elem) if isinstance(it, mat._Flat) else seq_of(it)
        if forced_const(n) is None: return SSeq(n, lambda i: (mk_int(i + IP.of(start)), f(i)))
        it = [f(IP.const(i)) for i in range(forced_const(n))]
    return enumerate(it, start)
def szip(*its):
    if any(isinstance(it, (SList, SSeq, SRange, SMat)) for it in its):
        ss = [seq_of(it if not isinstance(it, (range,)) else list(it)) for it in its]
        if any(forced_const(n) is None for n, _ in ss):
            c = Ctx.cur
            m = ss[0][0]
            for n, _ in ss[1:]:
                if m == n: continue
                if not c.decide(f_le(m, n)): m = n
            return SSeq(m, lambda i: tuple(f(i) for _, f in ss))
        return zip(*[[f(IP.const(i)) for i in range(forced_const(n))] for n, f in ss])
    return zip(*its)
def sreversed(x):
    if isinstance(x, SRange): return x.__reversed__()
    if isinstance(x, (SList, SSeq)):
        n, f = seq_of(x)
        return SSeq(n, lambda i: f(n - 1 - i))
    return reversed(x)
def smap(fn, *its):
    if any(isinstance(it, (SList, SSeq, SRange, SMat)) for it in its):
        z = szip(*its)
        if isinstance(z, SSeq): return SSeq(z.n, lambda i: fn(*z.fn(i)))
        return [fn(*t) for t in z]
    return map(fn, *its)
def ssorted(x, key=None, reverse=False):
    l = list(x)
    sym_sort(l, key=key, reverse=reverse)
    return l
def sfilter(fn, it): return [x for x in it if truth(fn(x) if fn else x)]
def spow(a, b, *m):
    return binop('Pow', a, b)
def sgetattr(o, n, *d):
    try: return vx_getattr(o, n)
    except AttributeError:
        if d: return d[0]
        raise
def shasattr(o, n):
    try: vx_getattr(o, n); return True
    except AttributeError: return False
def sopen(*a, **k):
    f = Ctx.cur.memo.get('open')          # stand-in given by the contract
    if f is None: raise Unsupported('file access')
    return f(*a, **k)
class scomplex(metaclass=_Meta):
    _subs = (complex,)
    @staticmethod
    def _check(x): return builtins.isinstance(x, complex) or (isinstance(x, SReal) and x.kind in ('complex',))
    def __new__(cls, *a):
        if builtins.any(builtins.isinstance(x, (SReal, SInt)) for x in a) and builtins.len(a) == 2: return sym.complex_of(*a)
        return complex(*a)
BUILTINS = dict(int=sint, float=sfloat, bool=sbool, list=slist, tuple=stuple, str=sstr, dict=sdict, range=srange, len=slen, isinstance=sisinstance, type=stype,
                min=smin, max=smax, sum=ssum, all=sall, any=sany, abs=sabs, round=sround, print=sprint, enumerate=senumerate, zip=szip, reversed=sreversed,
                map=smap, sorted=ssorted, filter=sfilter, pow=spow, getattr=sgetattr, hasattr=shasattr, open=sopen, complex=scomplex, xrange=srange, long=sint)
