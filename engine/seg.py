"""Loops by segments: a function is cut at its loop heads and joins, every stretch between two cuts is
evaluated once in the domain of affine expressions, and what the loop variables are at each cut is an affine
function of ghost counters, checked inductively over all stretches."""
from engine.ir import AnalysisBroken, lin_add, lin_parts, mk_cmp, mk_lin, mk_not

CASTS = ("bitcast", "zext", "sext", "trunc", "ptrtoint", "inttoptr", "freeze", "addrspacecast")


def add(a, *bs):
    for b in bs:
        a = lin_add(a, b)
    return a


def sub(a, b):
    return lin_add(a, b, 1, -1)


def C(n):
    return ("c", n)


def ld(a, size=8):
    return ("ld", a, size)


def rewrite(e, f):
    """replace atoms bottom up: f(atom) -> expression or None"""
    if not isinstance(e, tuple) or not e:
        return e
    if e[0] == "lin":
        c, r = e[1], ("c", e[1])
        for k, x in e[2]:
            k2 = rewrite(k, f)
            cc, t = lin_parts(k2)
            r = lin_add(r, mk_lin(cc * x, {a: y * x for a, y in t.items()}))
        return r
    if e[0] == "c":
        return e
    y = f(e)
    if y is not None:
        return y
    if e[0] in ("phi", "arg", "call", "alloca", "op", "g", "f", "N", "K", "undef"):
        return e
    if e[0] == "cmp":
        return mk_cmp(e[1], rewrite(e[2], f), rewrite(e[3], f))
    if e[0] == "not":
        return mk_not(rewrite(e[1], f))
    r = tuple(rewrite(x, f) if isinstance(x, tuple) else x for x in e)
    y = f(r)
    return y if y is not None else r


def atoms(e, kinds=None):
    out = []

    def walk(x):
        if not isinstance(x, tuple) or not x:
            return
        if x[0] == "lin":
            for k, _ in x[2]:
                walk(k)
            return
        if kinds is None or x[0] in kinds:
            out.append(x)
        if x[0] in ("phi", "arg", "call", "alloca", "c", "g", "f", "N", "K"):
            return
        for y in x[1:]:
            walk(y)
    walk(e)
    return out


class Segment:
    def __init__(self, src, dst):
        self.src, self.dst = src, dst      # block numbers; dst is None at a return
        self.events = []                   # (inst, kind, address, value or source, length)
        self.conds = []                    # (expression, truth)
        self.phis = {}                     # phi id at dst -> value
        self.cells = {}                    # address -> value at the end
        self.ret = None
        self.calls = []                    # (inst, [argument values])
        self.blocks = []


class Segments:
    def __init__(self, fn, limit=4000):
        self.inv = {}
        self.fn = fn
        n = len(fn.blocks)
        heads = {s for b in range(n) for s in fn.succs[b] if s in fn.dominators()[b]}
        self.heads = heads
        R = fn.reach()
        cuts = {0} | heads
        for b in range(1, n):
            if any(i.op == "phi" for i in fn.blocks[b]) and b not in R[b]:
                t = fn.blocks[b][-1]
                if t.op != "ret":
                    cuts.add(b)
        self.limit = limit
        self._build(cuts)
        # a join only one stretch leads to is none
        lone = {b for b in cuts - heads - {0} if sum(g.dst == b for g in self.segs) < 2}
        if lone:
            self._build(cuts - lone)

    def _build(self, cuts):
        self.cuts = cuts
        self.cellset = set()
        self.known = {}
        for rnd in range(6):
            self.segs = []
            self.seen = {}
            self.count = 0
            self.outer, self._memo = False, {}
            for s in sorted(cuts):
                self._walk(s)
            new = set()
            for g in self.segs:
                for a in g.stored:
                    if not atoms(a, ("phi", "cell")):
                        new.add(a)
            # loads of changing memory mean, later on, what they gave when they were made
            known = {i: next(iter(x)) for i, x in self.seen.items() if len(x) == 1 and not atoms(next(iter(x)), ("cell",))}
            if new <= self.cellset and known == self.known:
                break
            self.cellset |= new
            self.known = known

    def _walk(self, src):
        stack = [(src, None, {}, {}, [], [], [], [src])]
        while stack:
            b, prev, val, mem, events, conds, calls, blocks = stack.pop()
            self.count += 1
            if self.count > self.limit:
                raise AnalysisBroken("too many stretches in " + self.fn.name)
            val, mem, events, conds, calls = dict(val), dict(mem), list(events), list(conds), list(calls)
            self.val, self.mem = val, mem
            done = False
            for i in self.fn.blocks[b]:
                if i.op == "phi":
                    if prev is None:
                        val[i.id] = ("phi", i.id)
                    else:
                        val[i.id] = self._in(i, prev)
                    continue
                self._step(i, events, calls)
                if i.op == "ret":
                    g = Segment(src, None)
                    g.ret = self.v(i.ops[0]) if i.ops else None
                    g.at = i
                    self._end(g, events, conds, calls, mem, blocks)
                    done = True
            if done:
                continue
            t = self.fn.blocks[b][-1]
            succ = list(dict.fromkeys(t.succ or []))
            for k in succ:
                nc = conds
                if t.op == "br" and len(succ) == 2:
                    e = self.v(t.cond)
                    tv = (k == t.succ[0])
                    if e[0] == "c":
                        if bool(e[1]) != tv:
                            continue
                    else:
                        ne = mk_not(e)
                        if any(x == e and y != tv or x == ne and y == tv for x, y in conds):
                            continue
                        nc = conds + [(e, tv)]
                elif t.op == "switch":
                    nc = conds + [(("switch", self.v(t.ops[0]) if t.ops else C(0), k), True)]
                if k in self.cuts:
                    g = Segment(src, k)
                    g.at = t
                    for i in self.fn.blocks[k]:
                        if i.op == "phi":
                            g.phis[i.id] = self._in(i, b)
                    self._end(g, events, nc, calls, mem, blocks)
                elif blocks.count(k) == 0:
                    stack.append((k, b, val, mem, events, nc, calls, blocks + [k]))

    def _end(self, g, events, conds, calls, mem, blocks):
        g.events, g.conds, g.calls = events, conds, calls
        g.stored = {a for (a, s) in mem}
        g.cells = {a: v for (a, s), v in mem.items()}
        g.blocks = blocks
        self.segs.append(g)

    def _in(self, phi, prev):
        for o, b in phi.raw["ops"]:
            if b == prev:
                return self.v(tuple(o))
        return ("undef",)

    def v(self, o):
        o = tuple(o) if not isinstance(o, tuple) else o
        if o[0] == "c":
            return C(o[1])
        if o[0] == "a":
            return ("arg", o[1])
        if o[0] == "i":
            if o[1] in self.val:
                return self.val[o[1]]
            # defined before the stretch began
            return self._outer(o[1])
        if o[0] in ("g", "f"):
            return o
        return ("undef",)

    def _outer(self, id):
        """a value computed in an earlier stretch"""
        if id not in self._memo:
            sv, so = self.val, self.outer
            self.val, self.outer = {}, True
            try:
                self._memo[id] = self._value(self.fn.insts[id])
            finally:
                self.val, self.outer = sv, so
        return self._memo[id]

    def load(self, a, size):
        if (a, size) in self.mem:
            return self.mem[(a, size)]
        if a in self.cellset:
            return ("cell", a, size)
        return ld(a, size)

    def _value(self, i):
        o = i.op
        E = self.v
        if o == "trunc" and i.ty in ("i8", "i16", "i32") and not self.fn.narrow(i.ops[0], i.ty):
            return ("trunc", i.ty, E(i.ops[0]))
        if o in CASTS:
            return E(i.ops[0])
        if o == "phi":
            if len(i.raw["ops"]) == 1:
                return E(tuple(i.raw["ops"][0][0]))
            return ("phi", i.id)
        if o == "getelementptr":
            e = add(E(i.ops[0]), C(i.off))
            for val, sc in i.var:
                e = lin_add(e, E(val), 1, sc)
            return e
        if o == "add":
            return add(E(i.ops[0]), E(i.ops[1]))
        if o == "sub":
            return sub(E(i.ops[0]), E(i.ops[1]))
        if o in ("mul", "shl"):
            a, b = E(i.ops[0]), E(i.ops[1])
            if o == "mul" and a[0] == "c":
                a, b = b, a
            if b[0] == "c":
                k = b[1] if o == "mul" else 1 << b[1]
                c, t = lin_parts(a)
                return mk_lin(c * k, {x: y * k for x, y in t.items()})
            return (o, a, b)
        if o == "icmp":
            a, b = E(i.ops[0]), E(i.ops[1])
            if a[0] == "sel" and b[0] == "c" and a[2][0] == "c" and a[3][0] == "c":
                x, y = mk_cmp(i.pred, a[2], b), mk_cmp(i.pred, a[3], b)
                if x[0] == "c" and y[0] == "c":
                    return x if bool(x[1]) == bool(y[1]) else a[1] if x[1] else mk_not(a[1])
            return mk_cmp(i.pred, a, b)
        if o == "xor":
            a, b = E(i.ops[0]), E(i.ops[1])
            if b == C(1) and i.ty == "i1":
                return mk_not(a)
            return (o, a, b)
        if o == "select":
            c, a, b = E(i.ops[0]), E(i.ops[1]), E(i.ops[2])
            if c[0] == "c":
                return a if c[1] else b
            return ("sel", c, a, b)
        if o == "load":
            a = E(i.ops[0])
            if self.outer:
                return self.known.get(i.id, ("op", i.id)) if a in self.cellset else ld(a, i.raw.get("sz"))
            x = self.load(a, i.raw.get("sz"))
            self.seen.setdefault(i.id, set()).add(x)
            return x
        if o in ("call", "invoke"):
            c = i.callee or ""
            if c.startswith("llvm.expect"):
                return E(i.ops[0])
            if c == "strlen":
                return ("strlen", E(i.ops[0]))
            if c in ("strcpy", "memcpy", "memmove", "strncpy"):
                return E(i.ops[0])
            if c == "stpcpy":
                return add(E(i.ops[0]), ("strlen", E(i.ops[1])))
            if c == "mempcpy":
                return add(E(i.ops[0]), E(i.ops[2]))
            if c == "strcmp":
                return ("strcmp", E(i.ops[0]), E(i.ops[1]))
            return ("call", i.id, i.callee)
        if o == "alloca":
            return ("alloca", i.id)
        if o in ("udiv", "sdiv", "urem", "srem", "lshr", "ashr", "and", "or"):
            return (o, E(i.ops[0]), E(i.ops[1]))
        return ("op", i.id)

    def _step(self, i, events, calls):
        o = i.op
        if o == "store":
            a, x, s = self.v(i.ops[1]), self.v(i.ops[0]), i.raw.get("sz", 8)
            self._put(a, s, x)
            events.append((i, "val", a, x, s))
            return
        if o in ("call", "invoke"):
            c = i.callee or ""
            if c.startswith(("llvm.memcpy", "llvm.memmove")) or c in ("memcpy", "memmove", "mempcpy"):
                d, s, n = self.v(i.ops[0]), self.v(i.ops[1]), self.v(i.ops[2])
                if n[0] == "c" and n[1] % 8 == 0 and n[1] <= 256:
                    vals = [self.load(add(s, C(k)), 8) for k in range(0, n[1], 8)]
                    for k, x in zip(range(0, n[1], 8), vals):
                        self._put(add(d, C(k)), 8, x)
                        events.append((i, "val", add(d, C(k)), x, 8))
                else:
                    events.append((i, "copy", d, s, n))
            elif c.startswith("llvm.memset") or c == "memset":
                d, x, n = self.v(i.ops[0]), self.v(i.ops[1]), self.v(i.ops[2])
                if n[0] == "c" and n[1] % 8 == 0 and n[1] <= 256 and x == C(0):
                    for k in range(0, n[1], 8):
                        self._put(add(d, C(k)), 8, C(0))
                        events.append((i, "val", add(d, C(k)), C(0), 8))
                else:
                    events.append((i, "fill", d, x, n))
            elif c in ("strcpy", "stpcpy"):
                d, s = self.v(i.ops[0]), self.v(i.ops[1])
                events.append((i, "copy", d, s, add(("strlen", s), C(1))))
            elif not c.startswith("llvm."):
                calls.append((i, [self.v(x) for x in i.ops]))
                # out parameters: locals handed to a call hold what the call left there
                for x in i.ops:
                    a = self.v(x)
                    if a[0] == "alloca" and c not in ("strlen", "strcmp"):
                        for k in [k for k in self.mem if sub(k[0], a)[0] == "c" and 0 <= sub(k[0], a)[1] < 256]:
                            del self.mem[k]
        self.val[i.id] = self._value(i)

    def _put(self, a, s, x):
        for k in list(self.mem):
            d = sub(k[0], a)
            if k != (a, s) and d[0] == "c" and -k[1] < d[1] < s:
                del self.mem[k]
        self.mem[(a, s)] = x

    # ---- invariants
    def invariants(self, consumes, size_of):
        """phi / cell -> affine expression in ('N',) and ('K',), where consumes(segment) says that the stretch
        handles one item, of size size_of(segment). Variables without such a description stay symbols."""
        segs = self.segs
        N, K = ("N",), ("K",)
        var = set()
        for g in segs:
            var |= {("phi", p) for p in g.phis}
        cells = {}
        for a in self.cellset:
            cells[a] = {s for g in segs for e in g.events if e[2] == a for s in [e[4]] if isinstance(s, int)}

        def final(g, x):
            """value of variable x at the end of stretch g, or None if x does not live there"""
            if x[0] == "phi":
                return g.phis.get(x[1])
            return g.cells.get(x[1], x)
        inv = {}
        # cut points nothing has been handled at yet
        used = {g.dst for g in segs if consumes(g)}
        while True:
            more = {g.dst for g in segs if g.src in used} - used
            if not more:
                break
            used |= more

        def needs(x, inits):
            """x is looked at on some way that has not set it"""
            seen, work = {0}, [0]
            while work:
                b = work.pop()
                for g in segs:
                    if g.src != b:
                        continue
                    es = [y for e in g.events for y in e[2:]] + list(g.phis.values()) + [y for y, _ in g.conds] + [g.ret]
                    if any(isinstance(y, tuple) and x in atoms(y) for y in es):
                        return True
                    if g not in inits and g.dst is not None and g.dst not in seen:
                        seen.add(g.dst)
                        work.append(g.dst)
            return False
        # classes of variables standing for the same quantity
        parent = {x: x for x in var}

        def find(x):
            while parent[x] != x:
                x = parent[x]
            return x
        coef = {}
        edges = []
        for g in segs:
            for p, e in g.phis.items():
                c, t = lin_parts(e)
                for a, k in t.items():
                    if a in var and k == 1:
                        edges.append((g, ("phi", p), a, sub(e, a)))
        for g, p, a, d in edges:
            if not atoms(d, ("phi",)) or p == a:
                parent[find(p)] = find(a)
        delta = {}
        for g, p, a, d in edges:
            if find(p) == find(a) and consumes(g):
                delta.setdefault(find(p), set()).add((d, size_of(g)))
        for r, ds in delta.items():
            if len({d for d, _ in ds}) == 0:
                continue
            for d, sz in ds:
                c, t = lin_parts(d)
                cs, ts = lin_parts(sz)
                b = 0
                if ts and all(t.get(k, 0) == t.get(list(ts)[0], 0) * 1 for k in ts):
                    b = t.get(list(ts)[0], 0)
                rest = sub(d, mk_lin(cs * b, {k: x * b for k, x in ts.items()}))
                if rest[0] == "c":
                    coef.setdefault(r, set()).add((rest[1], b))
                else:
                    coef.setdefault(r, set()).add(None)

        def base(x):
            """initial value of x's quantity: what flows in from outside its class"""
            r = find(x)
            out = set()
            for g in segs:
                for p, e in g.phis.items():
                    if find(("phi", p)) == r:
                        c, t = lin_parts(e)
                        if not any(k == 1 and a in var and find(a) == r for a, k in t.items()):
                            out.add(e)
            return out
        for x in var:
            r = find(x)
            cs = coef.get(r, {(0, 0)})
            if len(cs) != 1 or None in cs:
                continue
            (a, b), = cs
            bs = base(x)
            if len(bs) != 1:
                continue
            e0, = bs
            if x in atoms(e0):
                continue
            inv[x] = add(e0, mk_lin(0, {N: a}) if a else C(0), mk_lin(0, {K: b}) if b else C(0))
        for a in self.cellset:
            for s in cells[a]:
                x = ("cell", a, s)
                ds, e0 = set(), set()
                okc = True
                inits = {g for g in segs if a in g.cells and x not in atoms(g.cells[a])}
                if any(g.src in used or consumes(g) for g in inits if g.dst is not None) or needs(x, inits):
                    continue
                for g in segs:
                    if g.dst is None:
                        continue
                    if a in g.cells:
                        e = g.cells[a]
                        if x in atoms(e):
                            d = sub(e, x)
                            if consumes(g):
                                sz = size_of(g)
                                c, t = lin_parts(d)
                                csz, ts = lin_parts(sz)
                                b = t.get(list(ts)[0], 0) if ts else 0
                                rest = sub(d, mk_lin(csz * b, {k: y * b for k, y in ts.items()}))
                                if rest[0] == "c":
                                    ds.add((rest[1], b))
                                else:
                                    okc = False
                            elif d != C(0):
                                okc = False
                        else:
                            e0.add(e)
                    elif consumes(g):
                        ds.add((0, 0))
                if okc and len(ds) <= 1 and len(e0) == 1:
                    (p, q) = list(ds)[0] if ds else (0, 0)
                    inv[x] = add(list(e0)[0], mk_lin(0, {N: p}) if p else C(0), mk_lin(0, {K: q}) if q else C(0))
        # resolve references among descriptions, then check all stretches
        for _ in range(8):
            ch = False
            for x in list(inv):
                y = rewrite(inv[x], lambda t: inv.get(t) if t != x and t in inv else None)
                if y != inv[x]:
                    inv[x] = y
                    ch = True
            if not ch:
                break
        while True:
            bad = set()
            for g in segs:
                up = {N: add(N, C(1)), K: add(K, size_of(g))} if consumes(g) else {}
                for p, e in g.phis.items():
                    x = ("phi", p)
                    if x not in inv:
                        continue
                    got = self.at(e, inv)
                    want = self.at(rewrite(inv[x], lambda t: up.get(t)), inv)
                    if g.src not in used:
                        z = {N: C(0), K: C(0)}
                        got, want = rewrite(got, z.get), rewrite(want, z.get)
                    if got != want:
                        bad.add(x)
            if not bad:
                break
            for x in bad:
                del inv[x]
        self.inv = inv
        return inv

    def at(self, e, inv=None):
        inv = self.inv if inv is None else inv
        for _ in range(6):
            y = rewrite(e, lambda t: inv.get(t))
            if y == e:
                break
            e = y
        return e
