"""Random Simulink diagrams (acyclic but for the delays): their XML, and the equations they stand for."""

class Node:
    def __init__(self, typ, sid): self.type, self.sid, self.ins, self.signs, self.gain = typ, str(sid), [], [], None
class Diagram:
    """nodes: Inport, Delay, Gain, Sum, Outport; .ins: the nodes that feed the input ports, in order"""
    def __init__(self, rng, inputs=1, delays=2, comb=4, outs=1, sub=False, values=None):
        pool = list(range(1, 3 * (inputs + delays + comb + 2 * outs) + 30)); rng.shuffle(pool)
        if rng.random() < .5: pool.sort()
        new = lambda t: Node(t, pool.pop(0))
        self.rng = rng
        self.inports = [new('Inport') for _ in range(inputs)]
        self.delays = [new('Delay') for _ in range(delays)]
        src = self.inports + self.delays
        self.gains, self.sums, order = [], [], []
        for i in range(comb):
            avail = [x for x in src if x.type != 'Gain']
            last = i >= comb - outs
            if len(src) >= 2 and (rng.random() < .55 or last and rng.random() < .8):
                x = new('Sum'); self.sums.append(x)
                x.ins = rng.sample(src, min(len(src), rng.choice([1, 2, 2, 3, 3, 4])))
                if order and rng.random() < .6 and order[-1] not in x.ins: x.ins[0] = order[-1]
                x.signs = [rng.choice('++-') for _ in x.ins]
            else:
                x = new('Gain'); self.gains.append(x)
                x.ins = [rng.choice(avail)]
                x.gain = values(len(self.gains)) if values else ('', rng.choice([2, -3, .5, rng.randint(-20, 20) / 8.0]))
            src = src + [x]; order.append(x)
        for d in self.delays:
            d.ins = [rng.choice(order + order + src)]
        self.order = order
        self.outblocks = sorted(rng.sample(order, min(outs, len(order))), key=order.index)
        self.outports = []
        for x in self.outblocks:
            o = new('Outport'); o.ins = [x]; self.outports.append(o)
        self.nodes = self.inports + self.delays + order + self.outports
        rng.shuffle(self.nodes)
        if rng.random() < .3: self.nodes.sort(key=lambda x: int(x.sid))
        self.pool = pool + list(range(1000, 1100))
        self.subs = []
        if sub: self.group(sub)
    def group(self, nb):
        """nb subsystems: each groups blocks, and subsystems made before, of a same level"""
        self.up = {}            # the subsystem where a block or a subsystem is
        for _ in range(nb):
            level = self.rng.choice([None] + [s for s, _ in self.subs])
            free = [x for x in self.nodes if x.type in ('Gain', 'Sum', 'Delay') and self.up.get(x) == level] + [s for s, _ in self.subs if self.up.get(s) == level]
            if not free: continue
            S = self.rng.sample(free, self.rng.randint(1, min(4, len(free))))
            new = str(self.pool.pop(0))
            if level is not None: self.up[new] = level
            for x in S: self.up[x] = new
            self.subs.append((new, S))
    # ------------------------------------------------ XML
    def block(self, x, port=None):
        P = []
        if x.type == 'Gain': P.append(('Gain', x.gain[0] or repr(float(x.gain[1]))))
        if x.type == 'Delay': P.append(('DelayLength', '1'))
        if x.type == 'Sum': P += [('Ports', '[%d, 1]' % len(x.ins)), ('Inputs', self.rng.choice(['|', '']) + ''.join(x.signs))]
        if port is not None and (port > 1 or self.rng.random() < .3): P.append(('Port', str(port)))
        return '<Block BlockType="%s" Name="%s%s" SID="%s">%s</Block>' % (x.type, x.type, x.sid, x.sid, ''.join('<P Name="%s">%s</P>' % p for p in P))
    def lines(self, L):
        """lines from pairs (source, destination): the ones from a same source are branches of one line, or several lines"""
        by = {}
        for s, d in L: by.setdefault(s, []).append(d)
        out = []
        for s, ds in by.items():
            dst = lambda d: '<P Name="Dst">%s</P>' % d
            if len(ds) == 1: out.append('<Line><P Name="Src">%s</P>%s</Line>' % (s, dst(ds[0])))
            elif self.rng.random() < .7: out.append('<Line><P Name="Src">%s</P>%s</Line>' % (s, ''.join('<Branch>%s</Branch>' % dst(d) for d in ds)))
            else: out += ['<Line><P Name="Src">%s</P>%s</Line>' % (s, dst(d)) for d in ds]
        self.rng.shuffle(out)
        return ''.join(out)
    def xml(self):
        up = getattr(self, 'up', {})
        scopes = [None] + [s for s, _ in self.subs]
        content, lines = {s: [] for s in scopes}, {s: [] for s in scopes}         # blocks and subsystems, in order; pairs (source, destination)
        for x in self.nodes: content[up.get(x)].append(x)
        for s, _ in self.subs: content[up.get(s)].insert(self.rng.randint(0, len(content[up.get(s)])), s)
        ins, outs, made = {s: [] for s in scopes}, {s: [] for s in scopes}, {}
        def path(x):
            r = []
            while x is not None: x = up.get(x); r.append(x)
            return r            # the levels where x is, from the innermost to the top one
        def point(x, s):
            """where the signal of x is found in the level s"""
            P = path(x)
            if P[0] == s: return '%s#out:1' % x.sid
            if s in P:          # x is in a subsystem of this level
                c = P[P.index(s) - 1]
                if x not in outs[c]:
                    outs[c].append(x); port = len(outs[c])
                    o = Node('Outport', self.pool.pop(0)); o.port = port
                    content[c].insert(self.rng.randint(0, len(content[c])), o)
                    lines[c].append((point(x, c), '%s#in:1' % o.sid))
                return '%s#out:%d' % (c, outs[c].index(x) + 1)
            if x not in ins[s]:
                ins[s].append(x); port = len(ins[s])
                i = made[s, x] = Node('Inport', self.pool.pop(0)); i.port = port
                content[s].insert(self.rng.randint(0, len(content[s])), i)
                lines[up.get(s)].append((point(x, up.get(s)), '%s#in:%d' % (s, port)))
            return '%s#out:1' % made[s, x].sid
        for y in self.nodes:
            for k, x in enumerate(y.ins): lines[up.get(y)].append((point(x, up.get(y)), '%s#in:%d' % (y.sid, k + 1)))
        self.flat = []          # nodes in the order of the document
        def text(s):
            r = ''
            for x in content[s]:
                if isinstance(x, str): r += '<Block BlockType="SubSystem" Name="S%s" SID="%s"><P Name="Ports">[%d, %d]</P><System>%s</System></Block>' % (x, x, len(ins[x]), len(outs[x]), text(x))
                elif x in self.nodes:
                    self.flat.append(x)
                    r += self.block(x, (self.inports.index(x) if x in self.inports else self.outports.index(x)) + 1 if x.type in ('Inport', 'Outport') else None)
                else: r += self.block(x, x.port)
            return r + self.lines(lines[s])
        return '<ModelInformation Version="1.0"><Model Name="m"><BlockParameterDefaults><Block BlockType="Gain"><P Name="Gain">1</P></Block></BlockParameterDefaults><System>%s</System></Model></ModelInformation>' % text(None)
    # ------------------------------------------------ meaning
    def equations(self, zero, one, gain):
        """(next states, outputs) as linear forms of the states and the inputs, in the order of the blocks of the document; outputs: the sums, then the gains"""
        X, U = [x for x in self.flat if x.type == 'Delay'], [x for x in self.flat if x.type == 'Inport']
        val = {}
        for x in X + U: val[x] = {x: one}
        for y in self.order:
            r = {}
            for k, x in enumerate(y.ins):
                c = gain(y) if y.type == 'Gain' else one if y.signs[k] == '+' else zero - one
                for s, v in val[x].items(): r[s] = r.get(s, zero) + c * v
            val[y] = r
        Y = [x for x in self.flat if x in self.outblocks and x.type == 'Sum'] + [x for x in self.flat if x in self.outblocks and x.type == 'Gain']
        row = lambda f: ([f.get(x, zero) for x in X], [f.get(u, zero) for u in U])
        return [row(val[d.ins[0]]) for d in X], [row(val[y]) for y in Y], len(X), len(U)
    def describe(self): return ['%s%s%s <- %s' % (x.type, x.sid, '(%r)' % (x.gain,) if x.gain else '', ', '.join((x.signs[k] if x.signs else '') + y.type + y.sid for k, y in enumerate(x.ins))) for x in self.flat] + ['subsystem %s: %s' % (s, [x if isinstance(x, str) else x.sid for x in S]) for s, S in self.subs]

def meaning(J, K, L, M, N, P, Q, R, S, zero):
    """(next states, outputs) of the equations of a SIF whose J is lower triangular with a unit diagonal, as linear forms of the states and the inputs"""
    l, n, p, m = len(J), len(P), len(S), len(S[0]) if len(S) else 0
    t = []
    lin = lambda a, b: ([x + y for x, y in zip(a[0], b[0])], [x + y for x, y in zip(a[1], b[1])])
    mul = lambda c, a: ([c * x for x in a[0]], [c * x for x in a[1]])
    for i in range(l):
        v = (list(M[i]), list(N[i]))
        for j in range(i): v = lin(v, mul(zero - J[i][j], t[j]))
        t.append(v)
    def out(A, B, C, k):
        r = []
        for i in range(k):
            v = (list(B[i]), list(C[i]))
            for j in range(l): v = lin(v, mul(A[i][j], t[j]))
            r.append(v)
        return r
    return out(K, P, Q, n), out(L, R, S, p)
