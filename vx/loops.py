"""Loops and comprehensions over symbolic ranges.

A loop is verified with an inductive invariant: for every variable, attribute or matrix that its body changes, a closed form
(value at the beginning of iteration t) is inferred from one generic execution of the body; the init obligation holds by
construction of the closed form at t = 0 and is checked, the preservation obligation runs the body again from the closed form at
a generic t and compares with the closed form at t+1.  The inference is untrusted: only the two obligations count."""
import ast
from vx.sym import *
from vx.core import *
from vx import sym, core


class Recorder:
    """undo log of the mutations of one execution of a loop body"""
    def __init__(self):
        self.items = {}
        self.start = stamp()
        self.writes = {}      # id(store) -> [written set forms]
    def touch(self, o):
        from vx.interp import AttrRef
        k = (id(o.o), o.name) if isinstance(o, AttrRef) else id(o)
        if k in self.items: return
        b = getattr(o, 'birth', None)
        if isinstance(o, (list, dict)):
            b = Ctx.cur.born.get(id(o), (None, None))[1]
        elif isinstance(o, AttrRef): b = Ctx.cur.born.get(id(o.o), (None, None))[1]
        if b is not None and b > self.start: return
        if isinstance(o, Store): s = (o.gen, dict(o.cells) if o.cells is not None else None, o.version)
        elif isinstance(o, LStore): s = (o.n, o.fn)
        elif isinstance(o, list): s = list(o)
        elif isinstance(o, dict): s = dict(o)
        elif isinstance(o, AttrRef): s = o.o.__dict__.get(o.name, self)
        else: raise Unsupported('mutation of %r in a loop' % (o,))
        self.items[k] = (o, s)
    def wrote(self, st, f):
        self.writes.setdefault(id(st), []).append((f, len(Ctx.cur.gamma)))
    def final(self):
        from vx.interp import AttrRef
        r = {}
        for k, (o, s) in self.items.items():
            if isinstance(o, Store): v = (o.gen, dict(o.cells) if o.cells is not None else None)
            elif isinstance(o, LStore): v = (o.n, o.fn)
            elif isinstance(o, list): v = list(o)
            elif isinstance(o, dict): v = dict(o)
            else: v = o.o.__dict__.get(o.name)
            r[k] = (o, v)
        return r
    def undo(self):
        from vx.interp import AttrRef
        for k, (o, s) in self.items.items():
            if isinstance(o, Store): o.gen, o.cells, o.version = s
            elif isinstance(o, LStore): o.n, o.fn = s
            elif isinstance(o, list): o[:] = s
            elif isinstance(o, dict):
                o.clear(); o.update(s)
            elif s is self: o.o.__dict__.pop(o.name, None)
            else: o.o.__dict__[o.name] = s

def assigned_names(body):
    out = []
    def tgt(t):
        if isinstance(t, ast.Name):
            if t.id not in out: out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts: tgt(e)
        elif isinstance(t, ast.Starred): tgt(t.value)
    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)): 
            if isinstance(n, ast.FunctionDef): tgt(ast.Name(id=n.name))
            return
        if isinstance(n, ast.Assign):
            for t in n.targets: tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)): tgt(n.target)
        elif isinstance(n, ast.For): tgt(n.target)
        elif isinstance(n, ast.NamedExpr): tgt(n.target)
        elif isinstance(n, ast.ExceptHandler) and n.name: tgt(ast.Name(id=n.name))
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names: tgt(ast.Name(id=(a.asname or a.name).split('.')[0]))
        elif isinstance(n, ast.withitem) and n.optional_vars is not None: tgt(n.optional_vars)
        for c in ast.iter_child_nodes(n): walk(c)
    for s in body: walk(s)
    return out

def concrete_loop(fr, s, it):
    from vx.interp import _Break, _Continue
    broke = False
    for x in it:
        fr.assign(s.target, x)
        try: fr.block(s.body)
        except _Break: broke = True; break
        except _Continue: continue
    if not broke: fr.block(s.orelse)

def do_for(fr, s):
    from vx import mat
    it = fr.ev(s.iter)
    if isinstance(it, mat._Flat): it = SSeq(it.count(), it.elem)
    if isinstance(it, SMat):
        n, f = sym.mat_seq(it)
        it = SSeq(n, f)
    if isinstance(it, (SRange, SSeq, SList)):
        n = it.count()
        k = forced_const(n)
        f = it.elem
        if k is None:
            return SymLoop(fr, n, lambda t: fr.assign(s.target, f(IP.of(t))), s.body, s.orelse, s.target, s.lineno).run()
        it = [f(IP.const(i)) for i in range(k)] if k <= 4000 else None
    if isinstance(it, list):
        # the list may be modified while iterating: python semantics
        return concrete_loop(fr, s, it)
    return concrete_loop(fr, s, it)

def counting_while(fr, s):
    """`while v < bound: ..; v += step` read as the iteration over range(v, bound, step)"""
    t, last = s.test, s.body[-1]
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE))): return False
    l, r, op = t.left, t.comparators[0], type(t.ops[0])
    step = None
    def stepped(v):
        if isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == v: o, k = last.op, last.value
        elif isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == v and isinstance(last.value, ast.BinOp) and isinstance(last.value.left, ast.Name) and last.value.left.id == v: o, k = last.value.op, last.value.right
        else: return None
        if not (isinstance(k, ast.Constant) and type(k.value) is int and k.value > 0): return None
        return k.value if isinstance(o, ast.Add) else -k.value if isinstance(o, ast.Sub) else None
    for a, b, o in ((l, r, op), (r, l, {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}[op])):
        if isinstance(a, ast.Name) and stepped(a.id): var, bound, op, step = a.id, b, o, stepped(a.id); break
    if step is None or (step > 0) != (op in (ast.Lt, ast.LtE)): return False
    body = s.body[:-1]
    def leaves(b):
        for x in b:
            if isinstance(x, (ast.Break, ast.Continue)): return True
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)): continue
            if isinstance(x, (ast.For, ast.While)):
                if leaves(x.orelse): return True
                continue
            for f in ('body', 'orelse', 'finalbody', 'handlers'):
                if leaves(getattr(x, f, []) or []): return True
        return False
    if not body or leaves(body): return False
    names = {x.id for x in ast.walk(bound) if isinstance(x, ast.Name)}
    if var in assigned_names(body) or var in names or names & set(assigned_names(body)): return False
    loose = any(isinstance(x, (ast.Attribute, ast.Call, ast.Subscript)) for x in ast.walk(bound))
    attrs = {x.attr for x in ast.walk(bound) if isinstance(x, ast.Attribute)}
    if loose:
        for x in ast.walk(ast.Module(body=body, type_ignores=[])):
            if isinstance(x, ast.Attribute) and (isinstance(x.ctx, (ast.Store, ast.Del)) and x.attr in attrs or x.attr in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'rows', 'cols') and isinstance(x.ctx, ast.Store) or x.attr in ('append', 'extend', 'insert', 'pop', 'remove', 'clear')): return False
            if isinstance(x, ast.Delete): return False
    v0, e = fr.ev(ast.Name(id=var, ctx=ast.Load())), fr.ev(bound)
    if not (is_int(v0) and is_int(e)) or (isinstance(v0, int) and isinstance(e, int)): return False
    v0, e = IP.of(v0), IP.of(e)
    if op is ast.LtE: e = e + 1
    if op is ast.GtE: e = e - 1
    it = SRange(v0, e, step)
    n = it.count()
    k = forced_const(n)
    if k is not None: return False
    f = it.elem
    SymLoop(fr, n, lambda t: fr.assign(ast.Name(id=var, ctx=ast.Store()), f(IP.of(t))), body, [], ast.Name(id=var, ctx=ast.Store()), s.lineno).run()
    fr.assign(ast.Name(id=var, ctx=ast.Store()), mk_int(v0 + n * step))
    if loose and not Ctx.cur.entails(f_same(IP.of(fr.ev(bound)) + (1 if op is ast.LtE else -1 if op is ast.GtE else 0), e)): raise Unsupported('the bound of a while loop changes')
    fr.block(s.orelse)
    return True
def retry_loop(fr, s):
    """loops that draw again until a condition holds: the body only assigns names, and its second iteration does not read those which
    the first one assigned (it is checked): all the iterations after the first one start in the same state, up to the draws.  The loop
    then ends in its first or in its second iteration; the paths where it goes on (or never ends) are not followed (partial
    correctness)."""
    from vx.interp import _Break, _Continue, truth, Poison
    c = Ctx.cur
    calls = [x for x in ast.walk(s) if isinstance(x, ast.Call)]
    if not any((isinstance(x.func, ast.Name) and x.func.id or isinstance(x.func, ast.Attribute) and x.func.attr) in ('rand', 'randn', 'random_sample', 'uniform', 'randint', 'random') for x in calls): return False
    for x in ast.walk(ast.Module(body=s.body, type_ignores=[])):
        if isinstance(x, (ast.Subscript, ast.Attribute)) and not isinstance(x.ctx, ast.Load): return False
        if isinstance(x, (ast.AugAssign, ast.For, ast.While, ast.With, ast.Delete, ast.NamedExpr, ast.Global, ast.Nonlocal)): return False
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'pop', 'insert', 'extend', 'update', 'remove', 'sort', 'reverse', 'fill', 'clear', 'setdefault'): return False
    if c.recorders: return False
    for k in range(2):
        if not truth(fr.ev(s.test)):
            fr.block(s.orelse); return True
        before = dict(fr.loc)
        if k:
            for x in new: fr.loc[x] = Poison('it comes from the previous iteration of a loop')
        try: fr.block(s.body)
        except _Break: return True
        except _Continue: pass
        new = [x for x in fr.loc if x not in before or fr.loc[x] is not before[x]]
    if truth(fr.ev(s.test)): raise Infeasible()
    fr.block(s.orelse)
    return True
def do_while(fr, s):
    from vx.interp import _Break, _Continue, truth
    c = Ctx.cur
    if counting_while(fr, s): return
    if retry_loop(fr, s): return
    count = 0
    while True:
        v = fr.ev(s.test)
        if isinstance(v, SBool):
            g = c.all()
            if entails(g, v.form): b = True
            elif entails(g, f_not(v.form)): b = False
            elif 'unroll while' in c.memo:          # (a contract with a bound: every path is followed, at most so many iterations)
                if count >= c.memo['unroll while']: raise Unsupported('a loop goes on after %d iterations' % count)
                b = c.decide(v.form)
            else:
                return SymLoop(fr, None, lambda t: None, s.body, s.orelse, None, s.lineno, test=s.test).run()
        else: b = truth(v)
        if not b:
            fr.block(s.orelse); return
        count += 1
        if count > 3000: raise Unsupported('loop does not end')
        try: fr.block(s.body)
        except _Break: return
        except _Continue: continue

MISSING = object()
class Out:
    def __init__(self, kind, val, conds, loc, objs, writes):
        self.kind, self.val, self.conds, self.loc, self.objs, self.writes = kind, val, conds, loc, objs, writes

def subst_atoms(g, fn, d=None):
    """replace atoms: fn(Atom) -> GE or None; d: integer substitution applied afterwards"""
    out = GE0
    for t in g.terms:
        gs = [f_subst_atoms(f, fn) for f in t.g]
        p = GE((Term(t.c, t.bv, (), ()),))
        for a in t.at:
            args = tuple(subst_atoms(x, fn) if isinstance(x, GE) else x for x in a.args)
            a2 = Atom(a.name, args)
            r = fn(a2)
            if r is None: r = GE((Term(Fraction(1), (), (), (a2,)),))
            p = p * r
        for f in gs: p = p.guard(f)
        out = out + p
    if d: out = out.subst(d)
    return out
def f_subst_atoms(f, fn):
    k = f[0]
    if k == 'rc': return f_rc(f[1], subst_atoms(f[2], fn))
    if k == 'not': return f_not(f_subst_atoms(f[1], fn))
    if k == 'and': return f_and(*[f_subst_atoms(x, fn) for x in f[1]])
    if k == 'or': return f_or(*[f_subst_atoms(x, fn) for x in f[1]])
    if k == 'all': return ('all', f[1], f_subst_atoms(f[2], fn))
    return f
def atom_names(v):
    if isinstance(v, SReal): return v.ge.names()
    if isinstance(v, SBool): return f_names(v.form)
    if isinstance(v, SMat):
        if v.st.gen is not None: return v.st.gen.names()
        s = set()
        for x in v.st.cells.values(): s |= x.names()
        return s
    if isinstance(v, tuple):
        s = set()
        for x in v: s |= atom_names(x)
        return s
    return set()
def f_names(f):
    k = f[0]
    if k == 'rc': return f[2].names()
    if k == 'ba': return {f[1]}
    if k == 'not': return f_names(f[1])
    if k == 'all': return f_names(f[2])
    if k in ('and', 'or'):
        s = set()
        for x in f[1]: s |= f_names(x)
        return s
    return set()
def value_syms(v):
    if isinstance(v, SInt): return v.ip.syms()
    if isinstance(v, SReal): return v.ge.syms()
    if isinstance(v, SBool): return f_syms(v.form)
    if isinstance(v, SMat):
        s = v.rows_.syms() | v.cols_.syms()
        if v.st.gen is not None: return s | (v.st.gen.syms() - {R_, C_})
        for x in v.st.cells.values(): s |= x.syms()
        return s
    if isinstance(v, tuple):
        s = set()
        for x in v: s |= value_syms(x)
        return s
    return set()

def exists_elim(f, s, lo, hi):
    """exists lo <= s < hi: f   (conjunctions with unit coefficients); None when it cannot be eliminated"""
    if f[0] == 'or':
        rs = [exists_elim(x, s, lo, hi) for x in f[1]]
        if any(r is None for r in rs): return None
        return f_or(*rs)
    cj = f_conj(f) + [f_le(lo, s), f_lt(s, hi)]
    flat = []
    for x in cj: flat += f_conj(x)
    for x in flat:
        if x[0] == 'or' and s in f_syms(x):
            rest = [y for y in flat if y is not x]
            rs = [exists_elim(f_and(*(rest + [y])), s, lo, hi) for y in x[1]]
            if any(r is None for r in rs): return None
            return f_or(*rs)
    for x in flat:
        if x[0] == 'eq':
            k = x[1].lincoef(s)
            if k in (1, -1):
                sol = (x[1] - IP.sym(s) * k) * (-k)
                return f_and(*[f_subst(y, {s: sol}) for y in flat if y is not x])
    los, his, rest = [], [], []
    for x in flat:
        if s not in f_syms(x): rest.append(x); continue
        if x[0] != 'ge': return None
        k = x[1].lincoef(s)
        if k == 1: los.append(-(x[1] - IP.sym(s)))
        elif k == -1: his.append(x[1] + IP.sym(s))
        else: return None
    return f_and(*(rest + [f_le(a, b) for a in los for b in his]))

def index_names(s):
    """the symbols of the indices of a matrix (or of a 3-D array)"""
    return (R_, C_, D_) if s.kind == 'store' and s.store.shape is not None and len(s.store.shape) == 3 else (R_, C_)
def index_map(a): return dict(zip((R_, C_, D_), a.args))
class Slot:
    """something the loop body changes"""
    def __init__(self, kind, name, get, put, init):
        self.kind, self.name, self.get, self.put, self.init = kind, name, get, put, init
        self.opq = None; self.closed = None; self.temp = False; self.store = None; self.key = None; self.lives = []
        self.how = ''

class SymLoop:
    def __init__(self, fr, n, bind, body, orelse, target, lineno, test=None):
        self.fr, self.n, self.bind, self.body, self.orelse, self.target, self.lineno, self.test = fr, n, bind, body, orelse, target, lineno, test
        self.t = fresh('t'); self.size_facts = []
        self.stamp0 = stamp()
        self.names = assigned_names(body)
        if target is not None:
            for x in assigned_names([ast.Assign(targets=[target], value=None)]):
                if x not in self.names: self.names.append(x)
        self.label = '%s loop at +%d' % (fr.fi.qual, lineno - fr.fi.node.lineno)
    def range_facts(self, t=None):
        t = IP.of(t or self.t)
        r = [f_ge(t)]
        if self.n is not None: r.append(f_lt(t, self.n))
        return r
    def explore(self, setup):
        from vx.interp import _Break, _Continue, _Return
        c = Ctx.cur; fr = self.fr
        outs = []
        base = list(c.gamma)
        def run():
            rec = Recorder()
            saved = dict(fr.loc)
            outer = [(r, {k: list(v) for k, v in r.writes.items()}) for r in c.recorders]     # the enclosing loops are told of the whole set written (log_write)
            c.recorders.append(rec)
            c.loop_syms.append(self.t)
            depth = len(c.recorders)
            try:
                setup()
                n0 = len(c.gamma)
                kind, val = 'normal', None
                rec2 = rec
                try:
                    if self.test is not None:
                        v = fr.ev(self.test)
                        if not truth_(v):
                            return
                        n0 = len(c.gamma) - (1 if isinstance(v, SBool) and len(c.gamma) > n0 else 0)
                    self.bind(IP.sym(self.t))
                    fr.block(self.body)
                except _Continue: pass
                except _Break: kind = 'break'
                except _Return as r: kind, val = 'return', r.v
                except (Unsupported, Infeasible): raise
                except RecursionError: raise Unsupported('recursion')
                except Exception as e: kind, val = 'raise', e
                conds = c.gamma[n0:]
                outs.append(Out(kind, val, conds, {k: fr.loc.get(k, MISSING) for k in self.names}, rec.final(), dict(rec.writes)))
            except Infeasible: pass
            finally:
                c.loop_syms.pop()
                c.recorders.pop()
                rec.undo()
                for r, w in outer: r.writes = w
                fr.loc.clear(); fr.loc.update(saved)
        c.gamma = base + self.range_facts() + self.size_facts
        try: c.explore(run)
        finally: c.gamma = base
        return outs
    # ------------------------------------------------------------------
    def run(self):
        c = Ctx.cur; fr = self.fr
        from vx.interp import _Return, _Break, _Continue, Poison, AttrRef
        if self.n is not None and c.entails(f_eq(self.n)):
            fr.block(self.orelse); return
        before_syms = None
        c.quiet += 1
        try:
            outs0 = self.explore(lambda: None)
            if not outs0: raise Unsupported('no feasible path in the loop body')
            slots = self.make_slots(outs0)
            # pass A: opaque start of iteration
            self.set_opaque(slots, outs0)
            outs = self.explore(lambda: self.put_all(slots, 'opq'))
            self.infer(slots, outs)
        finally: c.quiet -= 1
        # pass B: verification from the closed forms
        for s in slots:
            if s.temp or s.closed is None: continue
            c.oblige('%s: invariant of %s holds initially' % (self.label, s.name), lambda s=s: self.eq_value(s, s.at(0), s.init, c.all()))
        outs = self.explore(lambda: self.put_all(slots, 'closed'))
        normal = [o for o in outs if o.kind == 'normal']
        exits = [o for o in outs if o.kind in ('raise', 'return')]
        breaks = [o for o in outs if o.kind == 'break']
        nfacts = self.no_exit_facts(exits + breaks)
        inst = [self.inst_fact(f) for f in nfacts]
        base = c.all() + self.range_facts() + [f for f in inst if f is not None]
        if self.test is not None:
            pass
        merged = self.merge(slots, normal) if normal else None
        if merged is not None:
            for s in slots:
                if s.temp: continue
                new = merged[s.key]
                c.oblige('%s: invariant of %s is preserved' % (self.label, s.name), lambda s=s, new=new: self.eq_value(s, new, s.at(IP.sym(self.t) + 1), base + self.merged_conds))
        # which continuation
        n = self.n
        if exits or breaks:
            tag = fresh('exit')
            for i, o in enumerate(exits + breaks):
                if not c.decide(('ba', '%s_%d' % (tag, i), ())): continue
                # leaves at iteration t0
                t0 = fresh('x')
                d = {self.t: IP.sym(t0)}
                for x in sorted(self.local_syms(o, before_syms)): d[x] = IP.sym(fresh('x'))
                for f in self.range_facts(t0): c.assume(f)
                for f in o.conds: c.assume(f_subst(f, d))
                if self.n is None: pass
                if o.kind == 'break':
                    for f in self.no_exit_facts(exits + breaks): c.assume(self.fact_before(f, t0))
                if sat(c.all()) is False: raise Infeasible()
                for s in slots:
                    if s.temp: continue
                    if o.kind == 'break':
                        v = self.slot_value(s, o)
                        s.put(value_subst(v, d))
                    else: s.put(value_subst(s.closed, d))
                for s in slots:
                    if s.temp and o.kind == 'break' and s.kind == 'local':
                        v = o.loc.get(s.name, MISSING)
                        if v is not MISSING: fr.loc[s.name] = value_subst(v, d)
                for k in self.names:
                    if o.kind == 'break' and not any(s.kind == 'local' and s.name == k for s in slots):
                        v = o.loc.get(k, MISSING)
                        if v is not MISSING: fr.loc[k] = value_subst(v, d)
                for s in slots:
                    if s.kind == 'store':
                        for r in c.recorders: r.wrote(s.store, None)
                if o.kind == 'raise': raise o.val
                if o.kind == 'return': raise _Return(value_subst(o.val, d))
                return
        for f in nfacts: c.assume(f)
        if self.test is not None:
            n = IP.sym(fresh('N'))
            c.assume(f_ge(n))
            # end of the loop: the test is false from the closed form at N (and true at N-1)
            self.put_all(slots, 'closed', n)
            v = fr.ev(self.test)
            if truth_(v): raise Infeasible()
            tf = None
            if c.decide(f_le(1, n)):
                self.put_all(slots, 'closed', n - 1)
                v = fr.ev(self.test)
                if not truth_(v): raise Infeasible()
        if not normal and not exits and not breaks: raise Infeasible()
        if not normal:
            # every iteration leaves: going through means that there is no iteration
            c.assume(f_eq(n))
            if sat(c.all()) is False: raise Infeasible()
        for s in slots:
            if not s.temp: s.put(s.at(n))
            else: self.log_write(s)
        some = c.entails(f_le(1, n))
        for k in self.names:
            if any(s.kind == 'local' and s.name == k and not s.temp for s in slots): continue
            v = MISSING
            if normal and some and len(normal) == 1:
                v = normal[0].loc.get(k, MISSING)
                if v is not MISSING:
                    try:
                        if self.foreign(v, before_syms): v = MISSING
                        else: v = value_subst(v, {self.t: n - 1})
                    except Unsupported: v = MISSING
            fr.loc[k] = v if v is not MISSING else Poison('set by a loop')
        for s in slots: self.log_write(s)
        fr.block(self.orelse)
    # ------------------------------------------------------------------ slots
    def make_slots(self, outs):
        from vx.interp import AttrRef, Poison
        fr = self.fr; c = Ctx.cur
        slots = []
        lists = {}
        for k in self.names:
            if k not in fr.loc: continue
            v = fr.loc[k]
            if isinstance(v, Poison): continue
            if all(o.loc.get(k) is v for o in outs if o.kind == 'normal'): continue
            s = Slot('local', k, (lambda k=k: fr.loc[k]), (lambda v, k=k: fr.loc.__setitem__(k, v)), v)
            s.key = ('local', k)
            slots.append(s)
        objs = {}
        for o in outs:
            if o.kind in ('normal', 'break'):
                for k, (ob, v) in o.objs.items(): objs[k] = ob
        for k, ob in objs.items():
            if isinstance(ob, Store):
                s = Slot('store', self.store_name(ob), None, None, None)
                s.store = ob
                s.shape = ob.shape
                s.init = ('store', ob.gen, dict(ob.cells) if ob.cells is not None else None)
                s.key = ('store', id(ob))
                def put(v, ob=ob):
                    Ctx.cur.touch(ob)
                    ob.gen, ob.cells = v[1], v[2]
                    ob.version += 1
                s.put = put
                slots.append(s)
            elif isinstance(ob, (list, LStore)):
                # bound to local names
                names = [k2 for k2, v2 in fr.loc.items() if v2 is ob or (isinstance(v2, SList) and v2.st is ob)]
                if not names:
                    raise Unsupported('a list that is not a local variable changes in a loop')
                if isinstance(ob, list):
                    init = SList(IP.const(len(ob)), seq_of(list(ob))[1])
                else: init = SList(ob.n, ob.fn)
                s = Slot('list', names[0], None, None, init)
                s.key = ('list', k)
                s.obj = ob; s.names = names
                def put(v, names=names, ob=ob):
                    if isinstance(ob, LStore):
                        Ctx.cur.touch(ob)
                        ob.n, ob.fn = v.st.n, v.st.fn
                        for nm in names:
                            if isinstance(fr.loc[nm], SList) and fr.loc[nm].st is ob: fr.loc[nm].block = v.block
                            else:
                                w = SList(ob.n, ob.fn); w.st = ob; w.block = v.block
                                fr.loc[nm] = w
                        return
                    w = SList(v.st.n, v.st.fn)
                    w.block = v.block
                    w.st.birth = Ctx.cur.born.get(id(ob), (None, 0))[1]
                    for nm in names: fr.loc[nm] = w
                s.put = put
                slots.append(s)
            elif isinstance(ob, AttrRef):
                v = ob.o.__dict__.get(ob.name, MISSING)
                if v is MISSING: raise Unsupported('attribute %s created in a loop' % ob.name)
                s = Slot('attr', '.' + ob.name, None, (lambda v, ob=ob: setattr(ob.o, ob.name, v)), v)
                s.obj = ob
                s.key = ('attr', k)
                slots.append(s)
            else: raise Unsupported('%s changes in a loop' % type(ob).__name__)
        return slots
    def store_name(self, st):
        for k, v in self.fr.loc.items():
            if isinstance(v, SMat) and v.st is st: return k
        for k, v in self.fr.loc.items():
            if hasattr(v, '__dict__'):
                for k2, v2 in vars(v).items():
                    if isinstance(v2, SMat) and v2.st is st: return '%s.%s' % (k, k2)
        return 'matrix'
    def slot_value(self, s, o):
        """value of the slot at the end of outcome o"""
        if s.kind == 'local':
            v = o.loc.get(s.name, MISSING)
            if v is MISSING: raise Unsupported('unset variable')
            return v
        if s.kind == 'store':
            for k, (ob, v) in o.objs.items():
                if ob is s.store: return ('store', v[0], v[1])
            return s.cur
        if s.kind == 'list':
            v = o.loc_lists.get(s.key) if hasattr(o, 'loc_lists') else None
            for k, (ob, v) in o.objs.items():
                if any(ob is w.st for w in s.lives): return SList(v[0], v[1])
            return s.cur
        for k, (ob, v) in o.objs.items():
            if k == s.key[1]: return v
        return s.cur
    def put_all(self, slots, what, t=None):
        fr = self.fr
        from vx.interp import Poison
        for s in slots:
            if s.temp:
                if s.kind == 'local': fr.loc[s.name] = Poison('temporary of a loop')
                continue
            v = s.opq if what == 'opq' else (s.closed if t is None else s.at(t))
            if v is None: continue
            s.cur = v
            if s.kind == 'list':
                w = SList(v.st.n, v.st.fn)
                w.st.birth = self.stamp0
                s.lives.append(w)
                for nm in s.names: fr.loc[nm] = w
            elif s.kind in ('local',):
                # matrices: fresh copy so that in-place changes are seen
                s.put(v.copy() if isinstance(v, SMat) else v)
            elif s.kind == 'attr': s.obj.o.__dict__[s.obj.name] = v if not isinstance(v, SMat) else v.copy()
            else: s.put(v)
    def set_opaque(self, slots, outs):
        c = Ctx.cur
        for s in slots:
            nm = '%s@%d' % (s.name, next(core_cnt))
            s.on = nm
            def attach(s=s):
                s.at = lambda t: self.at(s, t)
            attach()
            if s.kind == 'store':
                s.opq = ('store', GE.atom(nm, *index_names(s)), None)
                if s.init[2] is not None:
                    # keep it dense: same cells, opaque contents
                    s.opq = ('store', None, {k: GE.atom(nm, *k) for k in s.init[2]})
                continue
            if s.kind == 'list':
                ln = IP.sym(nm + 'len')
                s.opq = SList(ln, lambda i, s=s: (_ for _ in ()).throw(Unsupported('list read in the loop that builds it')))
                continue
            v = s.init
            after = [self.slot_value_raw(s, o) for o in outs if o.kind == 'normal']
            after = [a for a in after if a is not MISSING]
            if not after: s.temp = True; continue
            if any(isinstance(a, (SReal, float, Fraction)) for a in after) and (is_num(v)):
                k = to_real(v).kind
                for a in after: k = joink(to_real(a).kind, k)
                s.opq = SReal(GE.atom(nm), k)
            elif is_int(v) and all(is_int(a) for a in after):
                s.opq = mk_int(IP.sym(nm))
            elif isinstance(v, SMat) and all(isinstance(a, SMat) for a in after):
                a = after[0]
                rr = v.rows_ if all(x.rows_ == v.rows_ or c.entails(f_same(x.rows_, v.rows_)) for x in after) else IP.sym(nm + 'rows')
                cc = v.cols_ if all(x.cols_ == v.cols_ or c.entails(f_same(x.cols_, v.cols_)) for x in after) else IP.sym(nm + 'cols')
                self.size_facts += [f_ge(x) for x, y in ((rr, v.rows_), (cc, v.cols_)) if x is not y]          # sizes are natural numbers
                ek = v.ek
                for x in after: ek = joink(x.ek, ek)
                s.opq = SMat(rr, cc, Store(GE.atom(nm, R_, C_)), a.tag, ek, a.ndim_)
            elif isinstance(v, (bool, SBool)) and all(isinstance(a, (bool, SBool)) for a in after):
                s.opq = SBool(('ba', nm, ()))
            elif isinstance(v, (bool, SBool, type(None), str)) or type(v) in (bool,):
                s.temp = True; s.special = True
            else:
                s.temp = True
    def slot_value_raw(self, s, o):
        try:
            if s.kind == 'local': return o.loc.get(s.name, MISSING)
            for k, (ob, v) in o.objs.items():
                if s.kind == 'attr' and k == s.key[1]: return v
        except Unsupported: pass
        return MISSING
    def at(self, s, t):
        """closed form at iteration t"""
        t = IP.of(t)
        if s.kind == 'list':
            # the elements do not depend on the number of iterations done
            d = {self.t: t}
            r = SList(s.closed.st.n.subst(d), s.closed.st.fn)
            if s.closed.block: r.block = tuple(x.subst(d) for x in s.closed.block)
            return r
        return store_subst(s.closed, {self.t: t})
    # ------------------------------------------------------------------ merging the paths
    def merge(self, slots, normal):
        c = Ctx.cur
        self.merged_conds = []
        if len(normal) == 1:
            self.merged_conds = [f for f in normal[0].conds]
            return {s.key: self.slot_value(s, normal[0]) for s in slots if not s.temp}
        r = {}
        gs = [f_and(*[f for f in o.conds if f[0] != 'all' or f in c.decided]) for o in normal]
        for s in slots:
            if s.temp: continue
            vs = [self.slot_value(s, o) for o in normal]
            r[s.key] = merge_values(gs, vs)
        return r
    def no_exit_facts(self, exits):
        c = Ctx.cur
        facts = []
        rng = self.range_facts()
        for o in exits:
            conds = [f for f in o.conds if (f[0] != 'all' or f in c.decided) and not is_exit_tag(f)]
            # drop what earlier facts already give
            if facts and len(conds) > 1:
                keep = []
                for i, f in enumerate(conds):
                    if i < len(conds) - 1 and not pureint(f) and entails(c.all() + rng + facts, f): continue
                    keep.append(f)
                conds = keep
            syms = set()
            for f in conds: syms |= f_syms(f)
            vs = [self.t] + sorted(x for x in syms if x.startswith(('x!', 't!')) and x != self.t and x not in c.known_now())
            body = f_not(f_and(*(rng + conds)))
            facts.append(('all', tuple(vs), body))
        return facts
    def inst_fact(self, f):
        if f[0] != 'all': return f
        if f[1] == (self.t,): return f[2]
        return ('all', tuple(v for v in f[1] if v != self.t), f[2])
    def fact_before(self, f, t0):
        s = fresh('b')
        g = f_subst(f[2], {self.t: IP.sym(s)})
        return ('all', (s,) + tuple(v for v in f[1] if v != self.t), f_implies(f_lt(s, t0), g))
    def local_syms(self, o, before):
        s = set()
        for f in o.conds: s |= f_syms(f)
        s |= value_syms(o.val) if o.kind == 'return' else set()
        return {x for x in s if x.startswith(('x!', 't!', 'fl!', 'ce!', 'q!', 'm!')) and x not in Ctx.cur.known_now() and x != self.t}
    def foreign(self, v, before):
        return any(x.startswith(('x!', 'fl!', 'ce!', 'q!', 'm!', 'N!')) and x not in Ctx.cur.known_now() for x in value_syms(v))
    def log_write(self, s):
        """tell the outer recorders which cells of the matrix were written by the loop"""
        if s.kind == 'store':
            c = Ctx.cur
            w = exists_elim(s.W, self.t, IP0, self.n) if getattr(s, 'W', None) is not None and self.n is not None else None
            for r in c.recorders:
                r.wrote(s.store, w)
    # ------------------------------------------------------------------ inference of the closed forms
    def infer(self, slots, outs):
        c = Ctx.cur
        from vx.interp import Poison
        normal = [o for o in outs if o.kind == 'normal']
        self._normal = normal
        live = [s for s in slots if not s.temp]
        used = set(); usedsyms = set()
        for o in outs:
            for f in o.conds: used |= f_names(f); usedsyms |= f_syms(f)
            if o.kind == 'return': used |= atom_names(o.val); usedsyms |= value_syms(o.val)
            for s in live:
                if o.kind in ('normal', 'break'):
                    try: v = self.slot_value(s, o)
                    except Unsupported: continue
                    used |= store_names(v); usedsyms |= store_syms(v)
        for s in live:
            if s.kind == 'local' and isinstance(s.opq, (SReal, SInt, SBool)) and s.on not in used and s.on not in usedsyms:
                s.temp = True
            elif s.kind == 'local' and isinstance(s.opq, SMat) and s.on not in used and not (s.opq.rows_.syms() | s.opq.cols_.syms()) & {s.on + 'rows', s.on + 'cols'} & usedsyms:
                s.temp = True
        live = [s for s in live if not s.temp]
        if not normal:
            for s in live: s.closed = s.init if s.kind != 'list' else s.init
            return
        merged = self.merge(live, normal)
        t = IP.sym(self.t)
        isub = {}        # integer opaques -> closed
        # integers first (variables, sizes, list lengths)
        pend = []
        for s in live:
            v = merged[s.key]
            if isinstance(s.opq, SInt): pend.append((s, s.on, IP.of(v), IP.of(s.init)))
            elif isinstance(s.opq, SMat):
                for ax, nw, it in (('rows', v.rows_, s.init.rows_), ('cols', v.cols_, s.init.cols_)):
                    if (s.opq.rows_ if ax == 'rows' else s.opq.cols_) == IP.sym(s.on + ax): pend.append((s, s.on + ax, nw, it))
            elif s.kind == 'list': pend.append((s, s.on + 'len', v.st.n, s.init.st.n))
        for s, nm, new, init in pend:
            d = (new - IP.sym(nm)).subst(isub)
            if nm in d.syms() or self.t in d.syms() or self.foreign(mk_int(d), None) or any(p[1] in d.syms() for p in pend):
                raise Unsupported('%s: no closed form for the integer %s' % (self.label, nm))
            isub[nm] = init + t * d
        for s in live:
            if isinstance(s.opq, SInt): s.closed = mk_int(isub[s.on]); s.how = 'linear'
        # lists
        for s in live:
            if s.kind == 'list':
                d = isub[s.on + 'len'] - s.init.st.n
                step = d.lincoef(self.t)
                v = merged[s.key]
                ln = IP.sym(s.on + 'len')
                n0 = s.init.st.n; f0 = s.init.st.fn
                if step is None:
                    self.block_list(s, v, d, ln, isub)
                    continue
                if not (d - t * step) == IP0 or step < 0: raise Unsupported('list growth')
                elems = [v.st.fn(ln + k) for k in range(step)] if step else []
                elems = [value_subst(e, isub) for e in elems]
                s.elems = elems
                def fn(i, s=s, elems=elems, n0=n0, f0=f0, step=step):
                    q = i - n0
                    if step == 0 or (entails_now(f_lt(q, 0))): return f0(i)
                    if step == 1:
                        e = value_subst(elems[0], {self.t: q})
                        if entails_now(f_ge(q)) or n0 == IP0: return e
                        return value_ite(f_lt(q, 0), f0(i), e)
                    if q.isconst:
                        return value_subst(elems[q.value % step], {self.t: IP.const(q.value // step)})
                    raise Unsupported('list built by several elements per iteration')
                s.closed = SList(isub[s.on + 'len'], fn)
                s.how = 'append'
        # booleans: flag and P(t)  /  flag or P(t)
        for s in live:
            if not isinstance(s.opq, SBool): continue
            new = f_subst_ints(form_of(merged[s.key]), isub)
            n1, n0 = f_set_ba(new, s.on, T), f_set_ba(new, s.on, F)
            if (f_names(n1) | f_names(n0) | f_bas(n1) | f_bas(n0)) & {x.on for x in live}: raise Unsupported('%s: no closed form for the condition %s' % (self.label, s.name))
            g = c.all() + self.range_facts()
            u = fresh('u')
            rng = f_and(f_ge(IP.sym(u)), f_lt(u, t))
            if entails(g, f_not(n0)):
                s.closed = mk_bool(f_and(form_of(s.init), ('all', (u,), f_implies(rng, f_subst(n1, {self.t: IP.sym(u)})))))
            elif entails(g, n1):
                s.closed = mk_bool(f_or(form_of(s.init), f_not(('all', (u,), f_implies(rng, f_not(f_subst(n0, {self.t: IP.sym(u)})))))))
            else: raise Unsupported('%s: no closed form for the condition %s' % (self.label, s.name))
            s.how = 'quantified'
        # reals and matrices
        todo = [s for s in live if s.closed is None]
        closedfn = {}
        def by_closed(a):
            f = closedfn.get(a.name)
            return f(a) if f else None
        progress = True
        ons = {s.on for s in todo}
        def cur_value(s):
            return store_subst_atoms(store_subst(merged[s.key], isub), by_closed)
        while todo:
            progress = False
            for s in list(todo):
                v = cur_value(s)
                others = (store_names(v) & ons) - {s.on} - set(closedfn)
                if others: continue
                r = self.solve(s, v, isub)
                if r is not None:
                    s.closed = r
                    todo.remove(s); progress = True
                    self.register(s, closedfn)
            if progress or not todo: continue
            # mutually recursive: time indexed ghost families, for a set of slots which only depends on itself
            dep = {s.on: store_names(cur_value(s)) & {x.on for x in todo} for s in todo}
            reach = {}
            for s in todo:
                r, st = set(), [s.on]
                while st:
                    x = st.pop()
                    for y in dep[x]:
                        if y not in r: r.add(y); st.append(y)
                reach[s.on] = r
            pick_ = min(todo, key=lambda s: len(reach[s.on] | {s.on}))
            group = [s for s in todo if s.on in reach[pick_.on] | {pick_.on}]
            self.families_of(group, merged, isub, by_closed)
            for s in group:
                self.store_W(s, normal, isub)
                todo.remove(s); self.register(s, closedfn)
        for s in live:
            if s.kind == 'list': s.closed = s.closed
    def families_of(self, todo, merged, isub, by_closed):
        c = Ctx.cur; t = IP.sym(self.t)
        fam = {}
        if any(len(index_names(s)) == 3 for s in todo): raise Unsupported('recurrence on a 3-D array')
        extra = self.extras([merged[s.key] for s in todo] + [s.init for s in todo])
        for s in todo: fam[s.on] = fresh('X_' + s.name.strip('.'))
        def to_fam(tt):
            def f(a):
                if a.name in fam:
                    return GE.atom(fam[a.name], *((tt,) + a.args + tuple(IP.sym(x) for x in extra)))
                return by_closed(a)
            return f
        newdefs = {}
        for s in todo:
            v = store_subst(merged[s.key], isub)
            nm = fam[s.on]
            step = store_subst_atoms(v, to_fam(t))
            step = store_subst(step, {self.t: t - 1})
            i, j = IP.sym(R_), IP.sym(C_)
            if isinstance(s.opq, SReal):
                body = ite(f_eq(t), to_real(s.init).ge, step.ge)
                newdefs[nm] = ((self.t,) + tuple(extra), body, f_ge(t))
            else:
                e0 = store_entry(s.init, i, j); e1 = store_entry(step, i, j)
                body = ite(f_eq(t), e0, e1)
                newdefs[nm] = ((self.t, R_, C_) + tuple(extra), body, f_ge(t))
            s.how = 'recurrence'
            s.step_ = step
        names = intern(c.rules, newdefs)
        for s in todo:
            nm = names[fam[s.on]]; step = s.step_
            i, j = IP.sym(R_), IP.sym(C_)
            if isinstance(s.opq, SReal):
                s.closed = SReal(GE.atom(nm, *((t,) + tuple(IP.sym(x) for x in extra))), s.opq.kind)
            else:
                g = GE.atom(nm, *((t, i, j) + tuple(IP.sym(x) for x in extra)))
                if s.kind == 'store': s.closed = ('store', g, None)
                else:
                    o = s.opq
                    s.closed = SMat(o.rows_.subst(isub), o.cols_.subst(isub), Store(g), o.tag, o.ek, o.ndim_)
            s.family = nm
            c.families.append(dict(name=nm, var=s.name, loop=self, step=step, init=s.init, extra=extra, count=self.n))
    def block_list(self, s, v, d, ln, isub):
        """every iteration appends the same symbolic number w of elements"""
        c = Ctx.cur
        w = IP0
        for m, k in d.t:
            if m.count(self.t) != 1: raise Unsupported('list growth')
            x = IP.const(k)
            for y in m:
                if y != self.t: x = x * IP.sym(y)
            w = w + x
        if not c.entails(f_le(1, w)): raise Unsupported('list growth')
        r = IP.sym(fresh('r'))
        sv = c.gamma
        c.gamma = c.gamma + self.range_facts() + [f_ge(r), f_lt(r, w), f_ge(ln)]
        try: e = value_subst(v.st.fn(ln + r), isub)
        finally: c.gamma = sv
        n0, f0 = s.init.st.n, s.init.st.fn
        rs = next(iter(r.syms()))
        def fn(i):
            q = i - n0
            if not entails_now(f_ge(q)):
                if entails_now(f_lt(q, 0)): return f0(i)
                raise Unsupported('list index')
            a, b = divmod_ip(q, w)
            return value_subst(e, {self.t: a, rs: b})
        s.closed = SList(isub[s.on + 'len'], fn)
        s.closed.block = (n0, w, IP.sym(self.t))
        s.how = 'append'
    def extras(self, vs):
        c = Ctx.cur
        syms = set()
        for v in vs: syms |= store_syms(v)
        return [x for x in c.loop_syms if x in syms and x != self.t] + sorted(x for x in syms if x.startswith(('x!',)) )
    def register(self, s, closedfn):
        if isinstance(s.closed, SReal):
            g = s.closed.ge
            closedfn[s.on] = lambda a: g
        else:
            cl = s.closed
            closedfn[s.on] = lambda a: store_entry(cl, *a.args)
    def store_W(self, s, normal, isub):
        """written set of one iteration (form over $r, $c, t)"""
        if s.kind != 'store': return
        w = F
        for o in normal:
            ws = o.writes.get(id(s.store), [])
            for f, k in ws:
                if f is None: s.W = None; return
                w = f_or(w, f_and(f_subst(f, isub), *[f_subst(x, isub) for x in o.conds if pureint(x)]) if len(normal) > 1 else f_subst(f, isub))
        s.W = w
    def solve(self, s, v, isub):
        """closed form of one slot whose new value only involves itself"""
        c = Ctx.cur
        t = IP.sym(self.t); n = self.n
        normal = None
        i, j = IP.sym(R_), IP.sym(C_)
        u = fresh('u')
        if isinstance(s.opq, SReal):
            new = to_real(v).ge
            D = (new - GE.atom(s.on)).light()
            if s.on not in D.names():
                s.how = 'sum'
                return SReal(to_real(s.init).ge + D.subst({self.t: IP.sym(u)}).sum(u, 0, t), s.opq.kind)
            return self.family1(s, v, isub)
        # matrices
        new = store_entry(v, i, j)
        own = GE.atom(s.on, *[IP.sym(x) for x in index_names(s)])
        D = (new - own).light()
        D = self.own_cancel(s, self.simp(D))
        e0 = store_entry(s.init, i, j)
        if s.kind == 'store':
            W = F; ok = True
            for o in self.cur_normal:
                for f, k in o.writes.get(id(s.store), []):
                    if f is None: ok = False; break
                    cj = [x for x in o.conds if pureint(x)] if len(self.cur_normal) > 1 else []
                    W = f_or(W, f_and(f_subst(f, isub), *[f_subst(x, isub) for x in cj]))
            s.W = W if ok else None
        if s.on not in D.names():
            s.how = 'sum'
            g = e0 + D.subst({self.t: IP.sym(u)}).sum(u, 0, t)
            return self.mk(s, g.light(), isub, v)
        # reads of cells that the loop never writes
        if s.kind == 'store' and s.W is not None and n is not None:
            anyW = exists_elim(s.W, self.t, IP0, n)
            if anyW is not None:
                def unwritten(a):
                    if a.name != s.on: return None
                    return None
                D2 = self.replace_unwritten(s, D, anyW, e0)
                D2 = self.simp(D2)
                if s.on not in D2.names():
                    s.how = 'sum'
                    g = e0 + D2.subst({self.t: IP.sym(u)}).sum(u, 0, t)
                    return self.mk(s, g.light(), isub, v)
            # single assignment
            r = self.single(s, v, D, isub, e0)
            if r is not None: return r
        return self.family1(s, v, isub)
    def replace_unwritten(self, s, D, anyW, e0):
        """opaque reads at cells outside of the written set are the initial contents (split on the membership)"""
        out = GE0
        for tm in D.terms:
            done = False
            for k, a in enumerate(tm.at):
                if a.name == s.on and not (a.args == tuple(IP.sym(x) for x in index_names(s))):
                    w = f_subst(anyW, index_map(a))
                    base = Ctx.cur.all() + self.range_facts() + list(tm.g) + self.cell_range(s)
                    others = tm.at[:k] + tm.at[k + 1:]
                    if sat(base + [w]) is False:
                        out = out + GE((Term(tm.c, tm.bv, tm.g, others),)) * e0.subst(index_map(a))
                        done = True; break
            if not done: out = out + GE((tm,))
        return out
    def own_cancel(self, s, D):
        """drop the unchanged part of the cell ($r, $c)"""
        own = tuple(IP.sym(x) for x in index_names(s))
        ig = intforms(Ctx.cur.all() + self.range_facts() + self.cell_range(s))
        mine, rest = [], []
        for tm in D.terms:
            if not tm.bv and len(tm.at) == 1 and tm.at[0].name == s.on and all(pureint(f) for f in tm.g):
                a = tm.at[0].args
                if a == own or sat(ig + list(tm.g) + [f_not(f_and(*[f_same(x, y) for x, y in zip(a, own)]))]) is False:
                    mine.append(tm); continue
            rest.append(tm)
        if mine and core.combine_zero([(x.c, x.g) for x in mine], ig):
            r = GE(rest); r._l = True
            return r
        return D
    def cell_range(self, s):
        sh = s.store.shape if s.kind == 'store' else (s.opq.rows_, s.opq.cols_)
        r = [f_ge(IP.sym(R_)), f_ge(IP.sym(C_))]
        if sh: r += [f_lt(R_, sh[0]), f_lt(C_, sh[1])]
        if sh and len(sh) == 3: r += [f_ge(IP.sym(D_)), f_lt(D_, sh[2])]
        return r
    def simp(self, D):
        base = Ctx.cur.all() + self.range_facts()
        ig = intforms(base)
        out = []
        for tm in D.terms:
            r = simp_term(tm)
            if r is None: continue
            for x in r:
                if x.g and sat(ig + [f for f in x.g if pureint(f)]) is False: continue
                out.append(x)
        g = GE(out).light()
        groups = {}
        for x in g.terms:
            groups.setdefault(repr(x.at) if not x.bv else ('bv', id(x)), []).append(x)
        out = []
        for k, xs in groups.items():
            if len(xs) > 1 and core.combine_zero([(x.c, x.g) for x in xs], ig): continue
            out += xs
        return GE(out).light()
    def several(self, s, v, alts, isub, e0):
        """several cells written by each iteration: each cell by at most one iteration, through one of the alternatives, and none is read once written"""
        c = Ctx.cur; t = IP.sym(self.t)
        groups = []
        for alt in alts:
            tau = None
            for f in f_conj(alt):
                if f[0] == 'eq':
                    k = f[1].lincoef(self.t)
                    if k in (1, -1): tau = (f[1] - t * k) * (-k); break
            if tau is None: return None
            for g in groups:
                if g[0] == tau: g[1].append(alt); break
            else: groups.append((tau, [alt]))
        if len(groups) < 2: return None
        base = intforms(c.all() + self.cell_range(s))
        ws = []
        for tau, al in groups:
            wa = f_or(*al)
            ws.append((tau, wa, f_and(f_subst(wa, {self.t: tau}), f_ge(tau), f_lt(tau, self.n))))
        for a in range(len(ws)):
            for b in range(a):
                if sat(base + [ws[a][2], ws[b][2]]) is not False: return None
        new = store_entry(v, IP.sym(R_), IP.sym(C_))
        rng = c.all() + self.range_facts() + self.cell_range(s)
        g = e0
        for tau, wa, wt in ws:
            V = self.simp(new.guard(wa))
            for tm in V.terms:
                for a in all_atoms(tm):
                    if a.name != s.on: continue
                    d = index_map(a)
                    if sat(intforms(rng) + [f for f in tm.g if pureint(f)] + [f_or(*[f_and(f_subst(w2, d), f_lt(t2.subst(d), t)) for t2, _, w2 in ws])]) is not False: return None
            Vx = subst_atoms(V, lambda a: e0.subst(index_map(a)) if a.name == s.on else None).subst({self.t: tau})
            g = ite(f_and(wt, f_lt(tau, t)), Vx, g)
        s.how = 'map'
        return self.mk(s, self.simp(g), isub, v)
    def single(self, s, v, D, isub, e0):
        """each cell is written by at most one iteration tau(r, c)"""
        c = Ctx.cur; t = IP.sym(self.t)
        W = s.W
        tau = None
        alts = list(W[1]) if W[0] == 'or' else [W]
        r = self.several(s, v, alts, isub, e0) if len(alts) > 1 else None
        if r is not None: return r
        for alt in alts:
            cand = None
            for f in f_conj(alt):
                if f[0] == 'eq':
                    k = f[1].lincoef(self.t)
                    if k in (1, -1): cand = (f[1] - t * k) * (-k); break
            if cand is None: return None
            if tau is None: tau = cand
            elif tau != cand: return None
        if tau is None: return None
        wt = f_and(f_subst(W, {self.t: tau}), f_ge(tau), f_lt(tau, self.n))
        i, j = IP.sym(R_), IP.sym(C_)
        new = store_entry(v, i, j)
        V = new.guard(W)             # value at the written cells at iteration t
        V = self.simp(V)
        def closed_at(tt, Fexpr):
            def f(a):
                if a.name != s.on: return None
                d = index_map(a)
                w = f_and(f_subst(wt, d), f_lt(tau.subst(d), tt))
                return ite(w, Fexpr(a.args), e0.subst(d))
            return f
        # explicit value when the reads are never of cells written before
        def init_only(a):
            if a.name != s.on: return None
            return e0.subst(index_map(a))
        reads = [a for tm in V.terms for a in all_atoms(tm) if a.name == s.on]
        base = c.all() + self.range_facts() + self.cell_range(s)
        explicit = True
        for tm in V.terms:
            for a in all_atoms(tm):
                if a.name == s.on:
                    d = index_map(a)
                    if sat(intforms(base) + [f for f in tm.g if pureint(f)] + [f_and(f_subst(wt, d), f_lt(tau.subst(d), t))]) is not False: explicit = False
        if explicit:
            Vx = subst_atoms(V, init_only)
            Vx = Vx.subst({self.t: tau})
            g = ite(f_and(wt, f_lt(tau, t)), Vx, e0)
            s.how = 'map'
            return self.mk(s, self.simp(g), isub, v)
        extra = self.extras([SReal(V)])
        nm = fresh('F_' + s.name.strip('.'))
        ex = tuple(IP.sym(x) for x in extra)
        Fx = lambda args: GE.atom(nm, *(tuple(args) + ex))
        body = subst_atoms(V, closed_at(t, Fx)).subst({self.t: tau})
        nm0 = nm
        nm = intern(c.rules, {nm: (index_names(s) + tuple(extra), self.simp(body), wt)})[nm]
        g = ite(f_and(wt, f_lt(tau, t)), Fx(tuple(IP.sym(x) for x in index_names(s))), e0)
        s.how = 'single assignment'
        s.family = nm
        c.families.append(dict(name=nm, var=s.name, loop=self, kind='single', extra=extra))
        return self.mk(s, g.light(), isub, v)
    def family1(self, s, v, isub):
        return None
    def mk(self, s, g, isub, v):
        if s.kind == 'store':
            if s.init[2] is not None:
                return ('store', None, {k: g.subst({R_: IP.const(k[0]), C_: IP.const(k[1])}).light() for k in s.init[2]})
            return ('store', g, None)
        o = s.opq
        return SMat(o.rows_.subst(isub), o.cols_.subst(isub), Store(g), v.tag, o.ek, o.ndim_)
    @property
    def cur_normal(self): return self._normal
    # ------------------------------------------------------------------ equality of values (obligations)
    def eq_value(self, s, a, b, gamma):
        return eq_values(a, b, gamma, Ctx.cur.rules, getattr(s, 'shape', None))

core_cnt = iter(range(10**9))
def is_exit_tag(f):
    if f[0] == 'not': f = f[1]
    return f[0] == 'ba' and f[1].startswith('exit!')
def intern(rules, defs):
    """ghost families with the same definitions are the same: {name: name already known}.  defs: {name: (params, body, domain)}"""
    def key(names):
        out = []
        ren = {n: '#%d' % i for i, n in enumerate(names)}
        for n in names:
            params, body, dom = defs[n]
            d = {p: IP.sym('@%d' % i) for i, p in enumerate(params)}
            b = subst_atoms(body, lambda a: GE((Term(Fraction(1), (), (), (Atom(ren[a.name], a.args),)),)) if a.name in ren else None).subst(d)
            out.append((len(params), sorted((term_key(x), x.c) for x in b.light().terms), f_str(f_subst(dom, d))))
        return repr(out)
    names = list(defs)
    k = key(names)
    if not hasattr(rules, 'interned'): rules.interned = {}
    if k in rules.interned: return dict(zip(names, rules.interned[k]))
    rules.interned[k] = names
    for n in names: rules.defs[n] = defs[n]
    return {n: n for n in names}
def truth_(v):
    from vx.interp import truth
    return truth(v)
def all_atoms(tm):
    out = []
    def rec(a):
        out.append(a)
        for x in a.args:
            if isinstance(x, GE):
                for t2 in x.terms:
                    for b in t2.at: rec(b)
    for a in tm.at: rec(a)
    for f in tm.g: _fa(f, out, rec)
    return out
def _fa(f, out, rec):
    if f[0] == 'rc':
        for t2 in f[2].terms:
            for b in t2.at: rec(b)
    elif f[0] == 'not': _fa(f[1], out, rec)
    elif f[0] in ('and', 'or'):
        for x in f[1]: _fa(x, out, rec)
def store_entry(v, i, j, k=None):
    if k is not None: return v[1].subst({R_: i, C_: j, D_: k}).light()
    if isinstance(v, SMat): return v.entry(i, j)
    return SMat(0, 0, Store(v[1], v[2])).entry(i, j)
def store_subst(v, d):
    if isinstance(v, tuple) and v and v[0] == 'store':
        return ('store', v[1].subst(d).light() if v[1] is not None else None, {k: x.subst(d).light() for k, x in v[2].items()} if v[2] is not None else None)
    return value_subst(v, d)
def store_subst_atoms(v, fn):
    if isinstance(v, tuple) and v and v[0] == 'store':
        return ('store', subst_atoms(v[1], fn).light() if v[1] is not None else None, {k: subst_atoms(x, fn).light() for k, x in v[2].items()} if v[2] is not None else None)
    if isinstance(v, SReal): return SReal(subst_atoms(v.ge, fn).light(), v.kind)
    if isinstance(v, SMat):
        st = v.st
        s2 = Store(subst_atoms(st.gen, fn).light() if st.gen is not None else None, {k: subst_atoms(x, fn).light() for k, x in st.cells.items()} if st.cells is not None else None)
        return SMat(v.rows_, v.cols_, s2, v.tag, v.ek, v.ndim_)
    return v
def f_subst_ints(f, isub): return f_subst(f, isub) if isub else f
def f_set_ba(f, name, val):
    k = f[0]
    if k == 'ba': return val if f[1] == name else f
    if k == 'not': return f_not(f_set_ba(f[1], name, val))
    if k == 'and': return f_and(*[f_set_ba(x, name, val) for x in f[1]])
    if k == 'or': return f_or(*[f_set_ba(x, name, val) for x in f[1]])
    if k == 'all':
        b = f_set_ba(f[2], name, val)
        return b if b in (T, F) else ('all', f[1], b)
    return f
def f_bas(f):
    k = f[0]
    if k == 'ba': return {f[1]}
    if k in ('not',): return f_bas(f[1])
    if k == 'all': return f_bas(f[2])
    if k in ('and', 'or'): return set().union(*[f_bas(x) for x in f[1]])
    return set()
def store_names(v):
    if isinstance(v, tuple) and v and v[0] == 'store':
        if v[1] is not None: return v[1].names()
        s = set()
        for x in v[2].values(): s |= x.names()
        return s
    return atom_names(v)
def store_syms(v):
    if isinstance(v, tuple) and v and v[0] == 'store':
        if v[1] is not None: return v[1].syms() - {R_, C_}
        s = set()
        for x in v[2].values(): s |= x.syms()
        return s
    return value_syms(v)
def merge_values(gs, vs):
    v0 = vs[0]
    if isinstance(v0, tuple) and v0 and v0[0] == 'store':
        if v0[2] is not None and all(v[2] is not None for v in vs):
            return ('store', None, {k: sum_guard(gs, [v[2][k] for v in vs]) for k in v0[2]})
        i, j = IP.sym(R_), IP.sym(C_)
        return ('store', sum_guard(gs, [store_entry(v, i, j) for v in vs]), None)
    if isinstance(v0, SMat):
        for v in vs[1:]:
            if not (v.rows_ == v0.rows_ and v.cols_ == v0.cols_): raise Unsupported('paths giving matrices of different sizes')
        return SMat.gen(v0.rows_, v0.cols_, lambda i, j: sum_guard(gs, [v.entry(i, j) for v in vs]), v0.tag, v0.ek, v0.ndim_)
    if all(is_int(v) for v in vs):
        if all(IP.of(v) == IP.of(v0) for v in vs): return v0
        raise Unsupported('paths giving different integers')
    if all(is_num(v) for v in vs):
        rs = [to_real(v) for v in vs]
        k = rs[0].kind
        for r in rs: k = joink(k, r.kind)
        return SReal(sum_guard(gs, [r.ge for r in rs]), k)
    if isinstance(v0, SList):
        n = v0.st.n
        if not all(v.st.n == n for v in vs): raise Unsupported('paths giving lists of different lengths')
        def fn(i):
            es = [v.st.fn(i) for v in vs]
            return merge_values(gs, es)
        return SList(n, fn)
    if isinstance(v0, tuple): return tuple(merge_values(gs, [v[k] for v in vs]) for k in range(len(v0)))
    if all(v is v0 for v in vs): return v0
    if all(isinstance(v, (bool, SBool)) for v in vs): return mk_bool(f_or(*[f_and(g, form_of(v)) for g, v in zip(gs, vs)]))
    if all(type(v) is type(v0) and isinstance(v, (str, bool, type(None))) and v == v0 for v in vs): return v0
    raise Unsupported('paths giving different values')
def sum_guard(gs, es):
    if all(e == es[0] for e in es[1:]): return es[0]
    r = GE0
    for g, e in zip(gs, es): r = r + e.guard(g)
    return r.light()
def eq_values(a, b, gamma, rules, shape=None):
    """True or a reason"""
    if isinstance(a, tuple) and a and a[0] == 'store':
        i, j = IP.sym(R_), IP.sym(C_)
        if a[2] is not None and b[2] is not None:
            for k in a[2]:
                r = ge_zero(a[2][k] - b[2][k], gamma, rules)
                if r is not True: return r
            return True
        rng = [f_ge(i), f_ge(j)]
        if shape is not None: rng += [f_lt(i, shape[0]), f_lt(j, shape[1])]
        if shape is not None and len(shape) == 3: rng += [f_ge(IP.sym(D_)), f_lt(D_, shape[2])]
        return ge_zero(store_entry(a, i, j) - store_entry(b, i, j), gamma + rng, rules)
    if isinstance(a, SMat):
        if not entails(gamma, f_and(f_same(a.rows_, b.rows_), f_same(a.cols_, b.cols_))): return 'sizes differ: %rx%r and %rx%r' % (a.rows_, a.cols_, b.rows_, b.cols_)
        i, j = IP.sym(R_), IP.sym(C_)
        rng = [f_ge(i), f_lt(i, a.rows_), f_ge(j), f_lt(j, a.cols_ if a.ndim_ == 2 else IP1)]
        return ge_zero(a.entry(i, j) - b.entry(i, j), gamma + rng, rules)
    if isinstance(a, SList):
        if not entails(gamma, f_same(a.st.n, b.st.n)): return 'lengths differ'
        c = Ctx.cur
        if entails(gamma, f_le(a.st.n, 0)): return True
        i = IP.sym(fresh('i'))
        sv = c.gamma
        blk = b.block or a.block
        if blk and not (a.st.n == blk[0]):
            n0, w, N = blk
            if not n0 == IP0: raise Unsupported('comparison of lists')
            q, r = IP.sym(fresh('q')), IP.sym(fresh('m'))
            for qq, cs in ((q, [f_ge(q), f_le(q, N - 2)]), (N - 1, [])):
                try:
                    c.gamma = list(gamma) + [f_ge(r), f_lt(r, w), f_ge(qq)] + cs
                    i = qq * w + r
                    x, y = a.st.fn(i), b.st.fn(i)
                    e = eq_values(x, y, list(c.gamma), rules)
                    if e is not True: return e
                finally: c.gamma = sv
            return True
        try:
            c.gamma = list(gamma) + [f_ge(i), f_lt(i, a.st.n)]
            x, y = a.st.fn(i), b.st.fn(i)
            return eq_values(x, y, list(c.gamma), rules)
        finally: c.gamma = sv
    if is_int(a) and is_int(b):
        return True if entails(gamma, f_same(a, b)) else 'integers differ: %r, %r' % (a, b)
    if is_num(a) and is_num(b):
        return ge_zero(to_real(a).ge - to_real(b).ge, gamma, rules)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): return 'tuple lengths'
        for x, y in zip(a, b):
            r = eq_values(x, y, gamma, rules)
            if r is not True: return r
        return True
    if isinstance(a, SBool) or isinstance(b, SBool):
        x, y = form_of(a), form_of(b)
        return True if entails(gamma, f_and(f_implies(x, y), f_implies(y, x))) else 'conditions differ'
    if isinstance(a, str) and isinstance(b, str): return sym.text_same(a, b)
    return True if a is b or a == b else 'values differ: %r, %r' % (a, b)

# --------------------------------------------------------------------------- comprehensions
def generic_elem(f, k, n):
    """f at the generic index k (0 <= k < n), merging the paths"""
    c = Ctx.cur
    outs = []
    base = list(c.gamma)
    def run():
        n0 = len(c.gamma)
        v = f(IP.sym(k))
        outs.append((f_and(*[x for x in c.gamma[n0:] if x[0] != 'all' or x in c.decided]), v))
    c.gamma = base + [f_ge(IP.sym(k)), f_lt(k, n)]
    c.loop_syms.append(k)
    rec = Recorder()
    c.recorders.append(rec)
    try: c.explore(run)
    finally:
        c.recorders.pop()
        c.loop_syms.pop()
        c.gamma = base
    if rec.items: raise Unsupported('a comprehension with side effects')
    if not outs: raise Infeasible()
    if len(outs) == 1: return outs[0][1]
    return merge_values([g for g, _ in outs], [v for _, v in outs])

class VaryingNest(Exception): pass
class Bag:
    """elements of a comprehension with filters or nested ranges: only any, all and sum can see them"""
    __slots__ = ('vars', 'cond', 'value')
    def __init__(self, vs, cond, value): self.vars, self.cond, self.value = vs, cond, value
    def range(self): return f_and(*[f_and(f_ge(IP.sym(k)), f_lt(k, n)) for k, n in self.vars])
    def sum(self):
        v = to_real(self.value)
        if v.kind in ('mpf', 'mpc') and not Ctx.cur.memo.get('real parts'): raise Unsupported('rounded sum over a symbolic sequence')
        g = v.ge.guard(self.cond)
        for k, n in reversed(self.vars): g = g.sum(k, 0, n)
        return SReal(g, v.kind)
    def __iter__(self): raise Unsupported('iteration over a filtered comprehension')
    def __len__(self): raise Unsupported('length of a filtered comprehension')
def bag_of(fr, e, gens, n, f):
    from vx.interp import Frame
    c = Ctx.cur
    names = [fresh('c') for _ in gens]
    lens = {}
    def level(gi, s, n, f):
        if gi in lens and not lens[gi] == n: raise Unsupported('nested comprehension over a range that depends on the path')
        lens[gi] = n
        def elem(i):
            s2 = Frame(fr.fi, {}, fr.glob, fr.cls, s)
            s2.assign(gens[gi].target, f(i))
            g = T
            for t in gens[gi].ifs:
                x = form_of(s2.ev(t))
                if has_all(x): raise Unsupported('quantified filter')
                g = f_and(g, x)
                if c.entails(f_not(g)): raise Unsupported('a filter that keeps nothing')
                c.assume(x)
            if gi + 1 == len(gens): return mk_bool(g), s2.ev(e.elt)
            it = s2.ev(gens[gi + 1].iter)
            if isinstance(it, range): it = list(it)
            n2, f2 = seq_of(it)
            g2, v2 = level(gi + 1, s2, n2, f2)
            return mk_bool(f_and(g, form_of(g2))), v2
        return generic_elem(elem, names[gi], n)
    g, v = level(0, fr, n, f)
    return Bag([(names[i], lens[i]) for i in range(len(gens))], form_of(g), v)
def excluded_index(cond, k):
    """J when the condition over the index k is `k != J`"""
    if cond[0] != 'not' or cond[1][0] != 'eq': return None
    for J in (cond[1][1] + IP.sym(k), IP.sym(k) - cond[1][1]):
        if k not in J.syms(): return J
    return None
def without_index(v, q, J, n):
    c = Ctx.cur
    if c.decide(f_and(f_ge(J), f_lt(J, n))):
        def fn(i):
            i = IP.of(i)
            a, b = value_subst(v, {q: i}), value_subst(v, {q: i + 1})
            if c.entails(f_lt(i, J)): return a
            if c.entails(f_le(J, i)): return b
            return merge_values([f_lt(i, J), f_le(J, i)], [a, b])
        return SList(n - 1, fn)
    return SList(n, lambda i: value_subst(v, {q: IP.of(i)}))
def nested_comp(fr, e, gens, n, f, q):
    """[elt for x in A for y in B] with as many elements of B for every x"""
    from vx.interp import Frame
    c = Ctx.cur
    r = fresh('c')
    cell = {}
    def inner(i):
        s2 = Frame(fr.fi, {}, fr.glob, fr.cls, fr)
        s2.assign(gens[0].target, f(i))
        it = s2.ev(gens[1].iter)
        return s2, seq_of(list(it) if isinstance(it, range) else it)
    sv = c.gamma
    c.gamma = sv + [f_ge(IP.sym(q)), f_lt(q, n)]
    try: w = inner(IP.sym(q))[1][0]
    finally: c.gamma = sv
    if q in w.syms(): raise VaryingNest()
    if not c.decide(f_le(1, w)): return []
    def elem2(i):
        def elem(j):
            s2, (w2, g) = inner(i)
            s2.assign(gens[1].target, g(j))
            return s2.ev(e.elt)
        return generic_elem(elem, r, w)
    v = generic_elem(elem2, q, n)
    def fn(i):
        a, b = divmod_ip(i, w)
        return value_subst(v, {q: a, r: b})
    L = SList(n * w, fn)
    L.block = (IP0, w, n)
    L.nest = (q, n, r, w, v)
    return L

def comprehension(fr, e, kind):
    from vx.interp import Frame, truth
    from vx import mat
    gens = e.generators
    sub = Frame(fr.fi, {}, fr.glob, fr.cls, fr)
    first = fr.ev(gens[0].iter)
    if isinstance(first, mat._Flat): first = SSeq(first.count(), first.elem)
    if isinstance(first, SMat):
        n, f = sym.mat_seq(first)
        first = SSeq(n, f)
    if isinstance(first, (SRange, SSeq, SList)):
        n = first.count(); k = forced_const(n)
        f = first.elem
        if k is None:
            if kind in ('set', 'dict'): raise Unsupported('set or dict comprehension over a symbolic range')
            q = fresh('c')
            def elem(i):
                s2 = Frame(fr.fi, {}, fr.glob, fr.cls, fr)
                s2.assign(gens[0].target, f(i))
                return s2.ev(e.elt)
            if len(gens) == 1 and gens[0].ifs:
                bag = bag_of(fr, e, gens, n, f)
                J = excluded_index(bag.cond, bag.vars[0][0])
                return bag if J is None else without_index(generic_elem(elem, q, n), q, J, n)
            if len(gens) > 2 or any(g.ifs for g in gens): return bag_of(fr, e, gens, n, f)
            if len(gens) == 2:
                try: return nested_comp(fr, e, gens, n, f, q)
                except VaryingNest: return bag_of(fr, e, gens, n, f)
            v = generic_elem(elem, q, n)
            return SList(n, lambda i: value_subst(v, {q: IP.of(i)}))
        first = [f(IP.const(i)) for i in range(k)]
    out = []
    def rec(gi, it):
        g = gens[gi]
        for x in it:
            sub.assign(g.target, x)
            ok = True
            for cnd in g.ifs:
                if not truth(sub.ev(cnd)): ok = False; break
            if not ok: continue
            if gi + 1 < len(gens):
                it2 = sub.ev(gens[gi + 1].iter)
                if isinstance(it2, (SMat, SRange, SSeq, SList)): it2 = list(it2)
                rec(gi + 1, it2)
            elif kind == 'dict': out.append((sub.ev(e.key), sub.ev(e.value)))
            else: out.append(sub.ev(e.elt))
    rec(0, first)
    if kind == 'list':
        Ctx.cur.born[id(out)] = (out, stamp())
        return out
    if kind == 'gen': return iter(out)
    if kind == 'set': return set(out)
    return dict(out)
