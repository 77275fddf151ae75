"""Meaning of the texts generated for a realization: algorithm texts, LaTeX algorithms and C functions.

The texts are those returned by the code of /repo for concrete dimensions and symbolic coefficients (each coefficient is shown as a
number that stands for it); they are parsed and executed here on symbolic states and inputs."""
import re
from vx.contract import *
from vx import sym
from vx.contracts.lti import at

class Bad(Exception): pass

_TOK = re.compile(r'\s*(?:(?P<num>0[xX][0-9a-fA-F]+(?:\.[0-9a-fA-F]*)?[pP][-+]?\d+|\d+(?:\.\d*)?(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)(?![\w.])'
                  r'|(?P<var>[A-Za-z_]\w*(?:\(k(?:[-+]\d+)?\)|\[\d+\])?)|(?P<op><-|[-+*/()=,]))')
def tokens(s):
    out, i, s = [], 0, s.rstrip()
    while i < len(s):
        m = _TOK.match(s, i)
        if not m: raise Bad('cannot be read: %r' % s[i:i + 40])
        out.append((m.lastgroup, m[m.lastgroup])); i = m.end()
    return out
class Reader:
    """sums of products; self.used: the variables read, in order"""
    def __init__(self, toks): self.t, self.i = list(toks) + [('end', '')], 0
    def peek(self): return self.t[self.i]
    def next(self):
        self.i += 1
        return self.t[self.i - 1]
    def expr(self, env, used):
        v = self.term(env, used)
        while self.peek()[1] in ('+', '-'):
            o = self.next()[1]
            x = self.term(env, used)
            v = v + x if o == '+' else v - x
        return v
    def term(self, env, used):
        v = self.factor(env, used)
        while self.peek()[1] == '*':
            self.next()
            v = v * self.factor(env, used)
        return v
    def factor(self, env, used):
        k, x = self.next()
        if x == '-': return -self.factor(env, used)
        if x == '+': return self.factor(env, used)
        if x == '(':
            v = self.expr(env, used)
            if self.next()[1] != ')': raise Bad(') expected')
            return v
        if k == 'num': return sym.text_value(x)
        if k == 'var':
            used.append(x)
            if x not in env: raise Bad('%s is read before it is computed (or does not exist)' % x)
            return env[x]
        raise Bad('unexpected %r' % x)

def statements(text, assign):
    """[(variable, tokens)] of a text  v <- sum  v <- sum ... (the sums may be cut at any place between two words)"""
    toks = tokens(text)
    at_ = [i for i, t in enumerate(toks) if t[1] == assign]
    if not at_ and toks: raise Bad('no assignment')
    if at_ and at_[0] != 1: raise Bad('text before the first assignment')
    out = []
    for a, b in zip(at_, at_[1:] + [len(toks) + 1]):
        if toks[a - 1][0] != 'var': raise Bad('assignment to %r' % (toks[a - 1][1],))
        out.append((toks[a - 1][1], toks[a + 1:b - 1]))
    return out
def run_text(text, env, assign='<-'):
    """executes the text; returns the list of (variable, variables read)"""
    done = []
    for v, ts in statements(text, assign):
        if v in env: raise Bad('%s is assigned twice' % v)
        r = Reader(ts); used = []
        x = r.expr(env, used)
        if r.peek()[0] != 'end': raise Bad('%s: unexpected %r' % (v, r.peek()[1]))
        env[v] = x
        done.append((v, used))
    return done

def run_inplace(text, env, assign='<-'):
    """executes the text without time: a state may be overwritten by its next value (once), and the temporaries and the next states see
    that; the outputs are evaluated with the states before their update.  `v <- vp` copies the array of the next states at the end.
    Returns (final values, list of (variable, variables read), True if the states are updated in place)"""
    env, old = dict(env), dict(env)
    done, swap = [], False
    for v, ts in statements(text, assign):
        if v in [a for a, b in done]: raise Bad('%s is assigned twice' % v)
        if v == 'x' and len(ts) == 1 and ts[0][1] == 'xp' and 'x' not in old: swap = True; continue
        if swap: raise Bad('%s is assigned after the copy of the states' % v)
        if v in old and not v.startswith('x'): raise Bad('%s is an input' % v)
        r = Reader(ts); used = []
        x = r.expr(dict(env, **{k: old[k] for k in old if v[0] == 'y'}), used)
        if r.peek()[0] != 'end': raise Bad('%s: unexpected %r' % (v, r.peek()[1]))
        env[v] = x
        done.append((v, used))
    return env, done, swap

def strip_comments(c): return re.sub(r'//[^\n]*', ' ', re.sub(r'/\*.*?\*/', ' ', c, flags=re.S))
def run_c(code, name, args):
    """executes the C function on args = {parameter: ('scalar', value) | ('array', {index: value}, size)}
    returns (type returned, parameters, value returned, final values, [(variable, variables read)])"""
    c = strip_comments(code).strip()
    m = re.match(r'(\w+)\s+(\w+)\s*\(([^)]*)\)\s*\{(.*)\}\s*$', c, flags=re.S)
    if not m: raise Bad('not a C function')
    if m[2] != name: raise Bad('the function is named %s' % m[2])
    ret, params, body, env, writable = m[1], [], m[4], {}, set()
    for d in m[3].split(','):
        k = re.fullmatch(r'\s*double\s*(\*?)\s*(\w+)\s*', d)
        if not k or k[2] not in args or (args[k[2]][0] == 'array') != bool(k[1]): raise Bad('parameter %r' % d)
        params.append(k[2])
        v = args[k[2]]
        if k[1]:
            for i, x in v[1].items(): env['%s[%d]' % (k[2], i)] = x
            writable |= {'%s[%d]' % (k[2], i) for i in range(v[2])}
        else: env[k[2]] = v[1]; writable.add(k[2])
    log, value = [], None
    for st in body.split(';'):
        ts = tokens(st)
        if not ts: continue
        if value is not None: raise Bad('statement after return')
        if ts[0][1] == 'return':
            r = Reader(ts[1:]); value = r.expr(env, [])
            if r.peek()[0] != 'end': raise Bad('return')
            continue
        decl = ts[0] == ('var', 'double')
        if decl:
            ts = ts[1:]
            for x in (ts[:1] if len(ts) > 1 and ts[1][1] == '=' else ts):
                if x[0] == 'var' and '[' not in x[1]:
                    if x[1] in writable: raise Bad('%s is declared twice' % x[1])
                    writable.add(x[1])
            if len(ts) == 1 or ts[1][1] == ',': continue
        if len(ts) < 3 or ts[0][0] != 'var' or ts[1][1] != '=': raise Bad('statement %r' % st)
        if ts[0][1] not in writable: raise Bad('%s is not declared' % ts[0][1])
        r = Reader(ts[2:]); used = []
        x = r.expr(env, used)
        if r.peek()[0] != 'end': raise Bad('unexpected %r' % r.peek()[1])
        env[ts[0][1]] = x; log.append((ts[0][1], used))
    return ret, params, value, env, log
