"""Gated value numbering over the normalised IR.

Every SSA value, and the content of every memory cell at every program point, gets a canonical
expression over the values at function entry, the arguments, the results of kept calls and opaque loop
symbols. Merges become selections on the branch condition (gated SSA), loads are forwarded through
the memory definitions that reach them, pointers are compared by normal form. Two pieces of code that
compute the same thing get the same expression however they are split into helpers and statements.

Memory model: a store changes exactly the cell its address denotes. Two addresses that differ by a
constant are compared exactly; addresses that differ by terms over boolean values (the page index) are
compared by tabulating those; other syntactically different addresses are taken to be distinct.
"""
import itertools
import random
import sys

from engine.ir import AnalysisBroken, const_cell

sys.setrecursionlimit(20000)
M64 = (1 << 64) - 1


class E:
    __slots__ = ("op", "a", "id", "_b", "_cx")
    tab = {}
    cnt = 0

    def __repr__(self):
        return show(self)


def mk(op, *a):
    key = (op,) + a
    e = E.tab.get(key)
    if e is None:
        e = E()
        e.op = op
        e.a = a
        E.cnt += 1
        e.id = E.cnt
        e._b = None
        e._cx = None
        E.tab[key] = e
    return e


def C(n):
    return mk("c", n)


ZERO = C(0)
ONE = C(1)


def show(e, depth=0):
    if depth > 7:
        return "..."
    s = lambda x: show(x, depth + 1)
    o, a = e.op, e.a
    if o == "c":
        return str(a[0])
    if o == "arg":
        return "arg%d" % a[0]
    if o == "lin":
        out = []
        for k, v in a[1]:
            out.append(("%d*" % v if v != 1 else "") + s(k))
        if a[0]:
            out.append(str(a[0]))
        return "(" + "+".join(out) + ")"
    if o == "cmp":
        return "(%s %s %s)" % (s(a[2]), {"eq": "==", "ult": "<", "slt": "<s"}[a[0]], s(a[3]))
    if o == "not":
        return "!" + s(a[0])
    if o in ("and", "or", "xor"):
        return "(" + {"and": " & ", "or": " | ", "xor": " ^ "}[o].join(s(x) for x in a) + ")"
    if o == "sel":
        return "(%s ? %s : %s)" % (s(a[0]), s(a[1]), s(a[2]))
    if o == "ld":
        return "[%s]" % s(a[0])
    return "%s(%s)" % (o, ",".join(s(x) if isinstance(x, E) else str(x) for x in a))


def is_bool(e):
    if e.op in ("cmp", "not", "exit"):
        return True
    if e.op == "c":
        return e.a[0] in (0, 1)
    if e.op in ("and", "or", "xor"):
        return all(is_bool(x) for x in e.a)
    if e.op == "sel":
        return is_bool(e.a[1]) and is_bool(e.a[2])
    if e.op == "op" and isinstance(e.a[0], str) and e.a[0].startswith("atom"):
        return True
    if e.op in ("ld", "lmem") and e.a[-1] == "b":
        return True
    return False


def bits(e):
    """Upper bound on the number of significant bits, None if unknown."""
    if is_bool(e):
        return 1
    if e.op == "c":
        return e.a[0].bit_length() if e.a[0] >= 0 else None
    if e.op == "ld":
        return 8 * e.a[1] if isinstance(e.a[1], int) else None
    if e.op == "sel":
        x, y = bits(e.a[1]), bits(e.a[2])
        return None if x is None or y is None else max(x, y)
    if e.op == "trunc":
        return e.a[0]
    if e.op == "and":
        bs = [bits(x) for x in e.a]
        bs = [b for b in bs if b is not None]
        return min(bs) if bs else None
    return None


def NOT(e):
    if e.op == "not":
        return e.a[0]
    if e.op == "c":
        return C(0 if e.a[0] else 1)
    if not is_bool(e):
        return CMP("eq", 64, e, ZERO)
    return mk("not", e)


def LIN(c, t):
    t = [(k, v) for k, v in t.items() if v]
    if not t:
        return C(c)
    if c == 0 and len(t) == 1 and t[0][1] == 1:
        return t[0][0]
    if c == 1 and len(t) == 1 and t[0][1] == -1 and is_bool(t[0][0]):
        return NOT(t[0][0])
    t.sort(key=lambda kv: kv[0].id)
    return mk("lin", c, tuple(t))


def parts(e):
    if e.op == "c":
        return e.a[0], {}
    if e.op == "lin":
        return e.a[0], dict(e.a[1])
    return 0, {e: 1}


def ADD(a, b, sa=1, sb=1):
    ca, ta = parts(a)
    cb, tb = parts(b)
    t = {}
    for k, v in ta.items():
        t[k] = t.get(k, 0) + sa * v
    for k, v in tb.items():
        t[k] = t.get(k, 0) + sb * v
    return LIN(sa * ca + sb * cb, t)


def MULC(a, c):
    k, t = parts(a)
    return LIN(k * c, {x: v * c for x, v in t.items()})


def CMP(p, w, a, b):
    if p == "ne":
        return NOT(CMP("eq", w, a, b))
    if p in ("ugt", "sgt"):
        return CMP(p[0] + "lt", w, b, a)
    if p in ("uge", "sge"):
        return NOT(CMP(p[0] + "lt", w, a, b))
    if p in ("ule", "sle"):
        return NOT(CMP(p[0] + "lt", w, b, a))
    if a.op == "c" and b.op == "c":
        m = (1 << w) - 1
        x, y = a.a[0] & m, b.a[0] & m
        if p == "eq":
            return C(int(x == y))
        if p == "ult":
            return C(int(x < y))
        h = 1 << (w - 1)
        return C(int(((x ^ h) - h) < ((y ^ h) - h)))
    if a is b:
        return ONE if p == "eq" else ZERO
    if p == "eq":
        if a.op == "c":
            a, b = b, a
        if b.op == "c" and is_bool(a):
            if b.a[0] == 0:
                return NOT(a)
            if b.a[0] in (1, -1):
                return a
            return ZERO
        if b.op == "c" and a.op == "sel" and (a.a[1].op == "c" or a.a[2].op == "c"):
            return SEL(a.a[0], CMP("eq", w, a.a[1], b), CMP("eq", w, a.a[2], b))
        if b.op != "c" and a.id > b.id:
            a, b = b, a
        return mk("cmp", "eq", w, a, b)
    if p == "ult":
        if b is ONE:
            return CMP("eq", w, a, ZERO)
        if a is ZERO:
            return NOT(CMP("eq", w, b, ZERO))
        if b is ZERO:
            return ZERO
    return mk("cmp", p, w, a, b)


def AND(*xs):
    flat = []
    for x in xs:
        if x.op == "c":
            if not x.a[0]:
                return ZERO
            continue
        flat += list(x.a) if x.op == "and" and is_bool(x) else [x]
    s = sorted(set(flat), key=lambda e: e.id)
    for x in s:
        if NOT(x) in s:
            return ZERO
    if not s:
        return ONE
    return s[0] if len(s) == 1 else mk("and", *s)


def OR(*xs):
    return NOT(AND(*[NOT(x) for x in xs]))


def BAND(a, b):
    if is_bool(a) and is_bool(b):
        return AND(a, b)
    if a.op == "c" and b.op == "c":
        return C(a.a[0] & b.a[0])
    s = []
    for x in (a, b):
        s += list(x.a) if x.op == "and" and not is_bool(x) else [x]
    s = sorted(set(s), key=lambda e: e.id)
    return s[0] if len(s) == 1 else mk("and", *s)


def BOR(a, b):
    if is_bool(a) and is_bool(b):
        return OR(a, b)
    if a.op == "c" and b.op == "c":
        return C(a.a[0] | b.a[0])
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    s = []
    for x in (a, b):
        s += list(x.a) if x.op == "or" and not is_bool(x) else [x]
    s = sorted(set(s), key=lambda e: e.id)
    return s[0] if len(s) == 1 else mk("or", *s)


def SEL(c, a, b):
    if c.op == "c":
        return a if c.a[0] else b
    if not is_bool(c):
        c = NOT(CMP("eq", 64, c, ZERO))
        if c.op == "c":
            return a if c.a[0] else b
    if a is b:
        return a
    if c.op == "not":
        return SEL(c.a[0], b, a)
    if a.op == "sel" and a.a[0] is c:
        a = a.a[1]
    if b.op == "sel" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if a is ONE and b is ZERO:
        return c
    if a is ZERO and b is ONE:
        return NOT(c)
    if is_bool(a) and is_bool(b):
        if b is ZERO:
            return AND(c, a)
        if a is ONE:
            return OR(c, b)
        if a is ZERO:
            return AND(NOT(c), b)
        if b is ONE:
            return OR(NOT(c), a)
    return mk("sel", c, a, b)


def TRUNC(w, x, src=64):
    b = bits(x)
    if b is not None and b <= w:
        return x
    if w == 1:
        # C bool loaded from memory
        if x.op in ("ld", "lmem", "out", "call", "lphi"):
            return NOT(CMP("eq", 8, x, ZERO))
        if x.op == "sel":
            return SEL(x.a[0], TRUNC(1, x.a[1]), TRUNC(1, x.a[2]))
    if x.op == "c":
        v = x.a[0] & ((1 << w) - 1)
        return C(v)
    if x.op == "sel" and (x.a[1].op == "c" or x.a[2].op == "c"):
        return SEL(x.a[0], TRUNC(w, x.a[1]), TRUNC(w, x.a[2]))
    return mk("trunc", w, x)


def children(e):
    o, a = e.op, e.a
    if o == "lin":
        return [k for k, _ in a[1]]
    out = []
    for x in a:
        if isinstance(x, E):
            out.append(x)
        elif isinstance(x, tuple):
            out += [y for y in x if isinstance(y, E)]
    return out


LEAF = {"ld", "arg", "call", "out", "lmem", "lphi", "g", "f", "alloca", "exit", "clob", "op", "undef", "mem", "rmw",
        "xchg", "may", "unwind", "tls", "ext"}


def leaves(*es):
    """leaf symbols a formula depends on"""
    out, seen = [], set()
    st = list(es)
    while st:
        e = st.pop()
        if e.id in seen:
            continue
        seen.add(e.id)
        if e.op == "c":
            continue
        if e.op in LEAF:
            out.append(e)
            continue
        st += children(e)
    out.sort(key=lambda e: e.id)
    return out


def nodes(e):
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        st += children(x)
    return out


def subst(e, m, memo=None):
    """replace nodes"""
    if memo is None:
        memo = {}
    if e in m:
        return m[e]
    if e.id in memo:
        return memo[e.id]
    o, a = e.op, e.a
    if o == "c" or not children(e):
        r = e
    elif o == "lin":
        r = C(a[0])
        for k, v in a[1]:
            r = ADD(r, subst(k, m, memo), 1, v)
    elif o == "cmp":
        r = CMP(a[0], a[1], subst(a[2], m, memo), subst(a[3], m, memo))
    elif o == "not":
        r = NOT(subst(a[0], m, memo))
    elif o in ("and", "or"):
        xs = [subst(x, m, memo) for x in a]
        r = xs[0]
        for x in xs[1:]:
            r = BAND(r, x) if o == "and" else BOR(r, x)
    elif o == "sel":
        r = SEL(*[subst(x, m, memo) for x in a])
    elif o == "trunc":
        r = TRUNC(a[0], subst(a[1], m, memo))
    else:
        r = mk(o, *[subst(x, m, memo) if isinstance(x, E) else
                    (tuple(subst(y, m, memo) if isinstance(y, E) else y for y in x) if isinstance(x, tuple) else x)
                    for x in a])
    memo[e.id] = r
    return r


def fold(view, e):
    """replace reads of constant tables whose place has become known"""
    memo = {}

    def walk(x):
        if x.id not in memo:
            memo[x.id] = x
            a = x.a[0] if x.op == "ld" else x.a[1] if x.op in ("clob", "may") else None
            if a is not None:
                c, t = parts(walk(a))
                if len(t) == 1 and list(t.values()) == [1] and next(iter(t)).op == "g":
                    y = const_cell(view, next(iter(t)).a[0], c, x.a[-1])
                    if y is not None and y[0] == "c":
                        memo[x.id] = C(y[1])
                    elif y is not None and y[0] == "g":
                        memo[x.id] = ADD(mk("g", y[1]), C(y[2]))
            else:
                for k in children(x):
                    walk(k)
        return memo[x.id]

    walk(e)
    m = {k: memo[k.id] for k in leaves(e) if k.id in memo and memo[k.id] is not k}
    return fold(view, subst(e, m)) if m else e


def compile_fn(es, vs):
    """python function computing the formulas es from values of the leaves vs"""
    names = {v.id: "x[%d]" % k for k, v in enumerate(vs)}
    code = []
    order = []
    seen = set(names)

    def visit(e):
        st = [(e, 0)]
        while st:
            x, ph = st.pop()
            if x.id in seen:
                continue
            if ph == 0:
                if x.op in LEAF and x.op != "c":
                    raise AnalysisBroken("free symbol %s" % show(x))
                st.append((x, 1))
                for c in children(x):
                    st.append((c, 0))
            else:
                seen.add(x.id)
                order.append(x)
    for e in es:
        visit(e)
    for e in order:
        o, a = e.op, e.a
        n = "v%d" % e.id
        r = lambda y: names[y.id]
        if o == "c":
            s = str(a[0])
        elif o == "lin":
            s = "+".join([str(a[0])] + ["%d*%s" % (v, r(k)) for k, v in a[1]]).replace("+-", "-")
        elif o == "cmp":
            m = (1 << a[1]) - 1
            if a[0] == "eq":
                s = "int(((%s-%s)&%d)==0)" % (r(a[2]), par(r(a[3])), m)
            elif a[0] == "ult":
                s = "int((%s&%d)<(%s&%d))" % (r(a[2]), m, r(a[3]), m)
            else:
                h = 1 << (a[1] - 1)
                s = "int((((%s)&%d)^%d)<(((%s)&%d)^%d))" % (r(a[2]), m, h, r(a[3]), m, h)
        elif o == "not":
            s = "1-(1 if %s else 0)" % r(a[0])
        elif o == "and":
            s = "&".join(r(x) for x in a)
        elif o == "or":
            s = "|".join(r(x) for x in a)
        elif o == "xor":
            s = "^".join(r(x) for x in a)
        elif o == "sel":
            s = "(%s if %s else %s)" % (r(a[1]), r(a[0]), r(a[2]))
        elif o == "trunc":
            s = "%s&%d" % (r(a[1]), (1 << a[0]) - 1)
        elif o == "mul":
            s = "(%s)*(%s)" % (r(a[0]), r(a[1]))
        elif o in ("sdiv", "srem", "ashr"):
            s = "%s(%s,%s)" % (o, r(a[0]), r(a[1]))
        elif o == "udiv":
            s = "((%s)&%d)//max(1,(%s)&%d)" % (r(a[0]), M64, r(a[1]), M64)
        elif o == "urem":
            s = "((%s)&%d)%%max(1,(%s)&%d)" % (r(a[0]), M64, r(a[1]), M64)
        elif o == "lshr":
            s = "((%s)&%d)>>(%s)" % (r(a[0]), M64, r(a[1]))
        elif o == "shl":
            s = "(%s)<<(%s)" % (r(a[0]), r(a[1]))
        else:
            raise AnalysisBroken("cannot tabulate " + o)
        names[e.id] = n
        code.append("  %s=%s" % (n, s))
    src = "def f(x):\n" + "\n".join(code or ["  pass"]) + "\n  return (" + "".join(names[e.id] + "," for e in es) + ")"
    env = {"sdiv": sdiv, "srem": srem, "ashr": lambda a, b: signed(a) >> b}
    exec(src, env)
    return env["f"]


def signed(a):
    a &= M64
    return a - (1 << 64) if a >> 63 else a


def sdiv(a, b):
    a, b = signed(a), signed(b)
    if b == 0:
        return 0
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def srem(a, b):
    return signed(a) - sdiv(a, b) * signed(b) if b else 0


def par(s):
    return "(%s)" % s if s.startswith("-") else s


SAMPLED = [0]


def abstract(es, pred):
    """replace every node satisfying pred by an independent truth value"""
    m = {}
    for e in es:
        for n in nodes(e):
            if n.op == "cmp" and pred(n):
                m[n] = CMP("eq", 8, mk("op", "abs", n.id), ONE)
    return [subst(e, m) for e in es]


def unsat(e, limit=18):
    """no assignment of truth values to the atomic conditions of e makes it true (sound: atoms are
    taken to be independent)"""
    if e.op == "c":
        return not e.a[0]
    atoms = []

    def walk(x):
        if x.op == "c" or x in atoms:
            return
        if x.op in ("not", "and", "or", "xor", "sel") and is_bool(x):
            for y in children(x):
                walk(y)
        elif x.op == "cmp" and x.a[1] and x.a[0] == "eq" and x.a[3].op == "c" and x.a[2].op == "sel" and consts(x.a[2]):
            walk_sel(x.a[2])
        else:
            atoms.append(x)

    def consts(x):
        return x.op == "c" or x.op == "sel" and consts(x.a[1]) and consts(x.a[2])

    def walk_sel(x):
        if x.op == "sel":
            walk(x.a[0])
            walk_sel(x.a[1])
            walk_sel(x.a[2])
    walk(e)
    if len(atoms) > limit:
        return False
    m = {a: mk("op", "atom%d" % k) for k, a in enumerate(atoms)}
    f = subst(e, m)
    for row, v in tabulate([f], lambda v: (0, 1), limit=1 << (limit + 1)):
        if v[0]:
            return False
    return True


def tabulate(es, dom, limit=400000):
    """Yield (assignment, values) over the product of leaf domains. dom(leaf) -> list of ints."""
    vs = leaves(*es)
    ds = [list(dom(v)) for v in vs]
    n = 1
    for d in ds:
        n *= len(d)
    f = compile_fn(es, vs)
    if n > limit:
        # too many combinations: a fixed pseudo-random selection of rows
        rnd = random.Random(len(vs))
        SAMPLED[0] += 1
        for _ in range(limit // 2):
            row = tuple(rnd.choice(d) for d in ds)
            yield dict(zip(vs, row)), f(row)
        return
    for row in itertools.product(*ds):
        yield dict(zip(vs, row)), f(row)


def equal(a, b, dom, assume=None):
    """counterexample assignment where a != b (under assume), or None"""
    es = [a, b] + ([assume] if assume is not None else [])
    for row, v in tabulate(es, dom):
        if assume is not None and not v[2]:
            continue
        if (v[0] - v[1]) & M64:
            return row
    return None


# ------------------------------------------------------------------------------------------ effects

# Kept calls: which memory they may change. "none": nothing the caller can see besides their
# out-arguments listed; "args": only through their pointer arguments; "shared": any non-local memory.
NO_EFFECT = {
    "a0_cnd_broadcast", "a0_cnd_signal", "strcmp", "strncmp", "strlen", "memcmp", "free", "a0_tid", "getenv",
    "strstr", "strchr", "strrchr", "abort", "__errno_location", "pthread_self",
    "a0_robust_op_start", "a0_robust_op_end", "a0_robust_op_add", "a0_robust_op_del",
}
OUT_ONLY = {"a0_time_mono_now": [0], "a0_time_wall_now": [0], "clock_gettime": [1],
            "a0_transport_empty": [1], "a0_transport_nonempty": [1], "a0_transport_iter_valid": [1],
            "a0_transport_has_next": [1], "a0_transport_has_prev": [1], "a0_transport_frame": [1],
            "a0_transport_seq_low": [1], "a0_transport_seq_high": [1]}
EXTERNAL_ARGS = {"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy"}


class G:
    """value numbering of one function"""

    def __init__(self, fn, effects=None, clobbers=None):
        """effects: callee -> "none" | ("args", [indices]); clobbers(callee, field, addr) -> bool decides
        whether a kept call may change a non-local cell (default: yes)."""
        self.fn = fn
        self.memo = {}
        self.mmemo = {}
        self.effects = effects or {}
        self.clobbers = clobbers
        self._loops()
        self._reachm = {}
        self._inprog = set()
        self._afield = {}
        # Loop facts are assumed optimistically (cell not written by the loop, header value follows its
        # entry pattern) and re-checked until nothing has to be withdrawn (greatest fixpoint).
        self.loopdec = {}
        self.phidec = {}
        self.pending = []
        self._depth = 0
        self._solve(lambda: [self.val(("i", i.id)) for i in fn.order if i.op not in ("store", "br", "ret", "switch")] +
                    [self.addr_of(i) for i in fn.order if i.op == "store"])

    def addr_of(self, i):
        a = self.val(i.ops[1] if i.op == "store" else i.ops[0])
        if i.fields:
            self._afield.setdefault(a, i.fields)
        return a

    def _solve(self, f):
        """evaluate f; verify the loop assumptions it relied on; redo if one fails"""
        if self._depth:
            return f()
        self._depth = 1
        try:
            for _ in range(400):
                r = f()
                bad = False
                while self.pending and not bad:
                    p = self.pending.pop()
                    if p[0] == "mem":
                        _, blk, addr, size = p
                        if self._dirty(blk, addr, size):
                            self.loopdec[(blk, addr, size)] = "dirty"
                            bad = True
                    else:
                        i = p[1]
                        if not self._phi_holds(i):
                            self.phidec[i.id] = "opaque"
                            bad = True
                if not bad:
                    return r
                self.memo, self.mmemo, self._reachm = {}, {}, {}
                self.pending = []
                # re-verify everything still assumed
                self.loopdec = {k: v for k, v in self.loopdec.items() if v == "dirty"}
                self.phidec = {k: v for k, v in self.phidec.items() if v == "opaque"}
            raise AnalysisBroken("value numbering of %s does not stabilise" % self.fn.name)
        finally:
            self._depth = 0

    def _dirty(self, block, addr, size):
        variant = any(n.op == "lmem" and n.a[0] == block or
                      n.op == "lphi" and self.fn.insts[n.a[0]].block == block for n in nodes(addr))
        if variant:
            # the cell itself changes from one iteration to the next: any write to the same member counts
            f = self.field(addr)
            for b in sorted(self.loop[block]):
                for i in self.fn.blocks[b]:
                    if i.op in ("store", "atomicrmw", "cmpxchg"):
                        if not self._apart(i.fields, f) and (f or self.effect(i, addr, size) is not None):
                            return True
                    elif i.op in ("call", "invoke"):
                        c = i.callee or ""
                        if c.startswith(("llvm.memset", "llvm.memcpy", "llvm.memmove")):
                            if not i.fields or not f or self._covers(i.fields, f):
                                return True
                        elif self.effect(i, addr, size) is not None:
                            return True
            return False
        for b in sorted(self.loop[block]):
            for i in self.fn.blocks[b]:
                if i.op in ("store", "call", "invoke", "atomicrmw", "cmpxchg") and self.effect(i, addr, size) is not None:
                    return True
        return False

    def field(self, addr):
        """access path ('struct.member', ...) of an address, () if unknown"""
        f = self._afield.get(addr)
        return f if f is not None else ()

    # ---- CFG
    def _loops(self):
        fn = self.fn
        dom = fn.dominators()
        self.back = set()
        self.loop = {}
        for b in range(len(fn.blocks)):
            for s in fn.succs[b]:
                if s in dom[b]:
                    self.back.add((b, s))
                    body = {s, b}
                    st = [b]
                    while st:
                        x = st.pop()
                        if x == s:
                            continue
                        for p in fn.preds[x]:
                            if p not in body:
                                body.add(p)
                                st.append(p)
                    self.loop.setdefault(s, set()).update(body)

    def idom(self, b):
        dom = self.fn.dominators()
        ds = dom[b] - {b}
        best = None
        for d in ds:
            if best is None or len(dom[d]) > len(dom[best]):
                best = d
        return best

    def edge_cond(self, b, s):
        """condition of leaving block b towards s"""
        t = self.fn.blocks[b][-1]
        if t.op == "br" and t.cond is not None:
            if t.succ[0] == t.succ[1]:
                return ONE
            c = self.boolval(t.cond)
            return c if s == t.succ[0] else NOT(c)
        if t.op == "switch":
            v = self.val(t.cond)
            w = self.width(t.cond)
            cs = t.raw["cases"]
            hits = [CMP("eq", w, v, C(c)) for c, d in zip(cs, t.succ[1:]) if d == s]
            r = OR(*hits) if hits else ZERO
            if t.succ[0] == s:
                r = OR(r, AND(*[NOT(CMP("eq", w, v, C(c))) for c in cs]))
            return r
        if t.op == "invoke" and len(set(t.succ)) > 1:
            u = mk("unwind", t.id)
            return NOT(u) if s == t.succ[0] else u
        ss = list(dict.fromkeys(t.succ or []))
        if len(ss) <= 1:
            return ONE
        return mk("exit", b, s)

    def boolval(self, v):
        e = self.val(v)
        return e if is_bool(e) else NOT(CMP("eq", 1, e, ZERO))

    def width(self, v):
        if v[0] == "i":
            ty = self.fn.insts[v[1]].ty
        elif v[0] == "c" and len(v) > 2:
            return v[2]
        elif v[0] == "a":
            ty = self.fn.params[v[1]].get("ty", "ptr")
        else:
            return 64
        if ty.startswith("i") and ty[1:].isdigit():
            return int(ty[1:])
        return 64

    # ---- gating: value delivered to block B by the edge that enters it, starting from dominator D
    def gate(self, B, edge_val, D=None):
        D = self.idom(B) if D is None else D
        memo = {}
        prog = set()

        def at(x, top=False):
            if x in memo:
                return memo[x]
            if x in prog:
                return None
            prog.add(x)
            r = None
            succs = self.fn.succs[x]
            if x in self.loop and not top and B not in self.loop[x]:
                # a whole loop between D and B: choose among its exits
                L = self.loop[x]
                exits = [(b, s) for b in sorted(L) for s in self.fn.succs[b] if s not in L]
                vals = []
                for b, s in exits:
                    v = into(b, s)
                    if v is not None:
                        vals.append(((b, s), v))
                for k, ((b, s), v) in enumerate(vals):
                    r = v if r is None else SEL(mk("exit", b, s), v, r)
            else:
                for s in succs:
                    v = into(x, s)
                    if v is None:
                        continue
                    r = v if r is None else SEL(self.edge_cond(x, s), v, r)
            prog.discard(x)
            memo[x] = r
            return r

        def into(b, s):
            if (b, s) in self.back and s != B:
                return None
            if s == B:
                if (b, s) in self.back:
                    return None
                return edge_val(b)
            if D not in self.fn.dominators()[s]:
                return None
            if B not in self.fn.reach()[s]:
                return None
            return at(s)

        return at(D, True)

    def exit_axioms(self, *es):
        """what leaving a loop through one of its exits says about the last iteration"""
        r = ONE
        done = set()
        todo = [n for e in es for n in nodes(e) if n.op == "exit"]
        for n in todo:
            for h, L in self.loop.items():
                if h in done or n.a[0] not in L or n.a[1] in L:
                    continue
                done.add(h)
                xs = [(b, s) for b in sorted(L) for s in self.fn.succs[b] if s not in L]
                one = ZERO
                for b, s in xs:
                    x = mk("exit", b, s)
                    only = AND(x, *[NOT(mk("exit", b2, s2)) for b2, s2 in xs if (b2, s2) != (b, s)])
                    one = OR(one, AND(only, self.reach(b, h), self.edge_cond(b, s)))
                r = AND(r, one)
        return r

    # ---- reachability condition of a block
    def reach(self, B, D=0):
        """condition, at D, under which control reaches B (loops: their last relevant iteration)"""
        if B == D:
            return ONE
        key = (B, D)
        if key in self._reachm:
            return self._reachm[key]
        d = self.idom(B)
        if d is None:
            return ZERO
        r = AND(self.reach(d, D) if d != D and D in self.fn.dominators()[d] else ONE, self._local_reach(B, d))
        self._reachm[key] = r
        return r

    def _local_reach(self, B, d):
        memo = {}
        prog = set()

        def at(x):
            if x == B:
                return ONE
            if x in memo:
                return memo[x]
            if x in prog:
                return ZERO
            prog.add(x)
            r = ZERO
            L = self.loop.get(x)
            if L and x != d and B not in L:
                for b in sorted(L):
                    for s in self.fn.succs[b]:
                        if s not in L:
                            v = to(s)
                            if v is not ZERO:
                                n = sum(1 for bb in L for ss in self.fn.succs[bb] if ss not in L)
                                r = OR(r, v if n == 1 else AND(mk("exit", b, s), v))
            else:
                for s in self.fn.succs[x]:
                    if (x, s) in self.back:
                        continue
                    v = to(s)
                    if v is not ZERO:
                        r = OR(r, AND(self.edge_cond(x, s), v))
            prog.discard(x)
            memo[x] = r
            return r

        def to(s):
            if s == B:
                return ONE
            if d not in self.fn.dominators()[s] or B not in self.fn.reach()[s]:
                return ZERO
            return at(s)

        # leaving a loop whose header is d's loop: at(d) treats d normally
        return at(d)

    def guard(self, inst, frm=0):
        return self.reach(inst.block, frm)

    # ---- SSA values
    def val(self, v):
        k = v[0]
        if k == "c":
            return C(v[1])
        if k == "a":
            return mk("arg", v[1])
        if k == "g":
            return ADD(mk("g", v[1]), C(v[2] if len(v) > 2 else 0))
        if k == "f":
            return mk("f", v[1])
        if k == "z":
            return ZERO
        if k == "u":
            return mk("undef")
        if k == "agg":
            return mk("agg", tuple(self.val(x) for x in v[1]))
        if k != "i":
            return mk("op", repr(v))
        i = v[1]
        if i in self.memo:
            return self.memo[i]
        if i in self._inprog:
            return mk("op", i)
        self._inprog.add(i)
        try:
            r = self._val(self.fn.insts[i])
        finally:
            self._inprog.discard(i)
        self.memo[i] = r
        return r

    def _val(self, i):
        o = i.op
        V = self.val
        if o in ("bitcast", "ptrtoint", "inttoptr", "zext", "sext", "freeze", "addrspacecast"):
            return V(i.ops[0])
        if o == "trunc":
            w = int(i.ty[1:])
            return TRUNC(w, V(i.ops[0]))
        if o == "getelementptr":
            if i.var is None:
                return mk("op", i.id)
            e = ADD(V(i.ops[0]), C(i.off))
            for x, sc in i.var:
                e = ADD(e, V(x), 1, sc)
            return e
        if o == "add":
            return ADD(V(i.ops[0]), V(i.ops[1]))
        if o == "sub":
            return ADD(V(i.ops[0]), V(i.ops[1]), 1, -1)
        if o == "mul":
            a, b = V(i.ops[0]), V(i.ops[1])
            if a.op == "c":
                a, b = b, a
            if b.op == "c":
                return MULC(a, b.a[0])
            return mk("mul", *sorted((a, b), key=lambda e: e.id))
        if o == "shl":
            a, b = V(i.ops[0]), V(i.ops[1])
            if b.op == "c" and 0 <= b.a[0] < 64:
                return MULC(a, 1 << b.a[0])
            return mk("shl", a, b)
        if o == "icmp":
            return CMP(i.pred, self.width(i.ops[0]), V(i.ops[0]), V(i.ops[1]))
        if o == "xor":
            a, b = V(i.ops[0]), V(i.ops[1])
            if a.op == "c":
                a, b = b, a
            if b.op == "c" and is_bool(a) and b.a[0] in (1, -1) and (i.ty == "i1" or b.a[0] == 1):
                return NOT(a)
            if a.op == "c" and b.op == "c":
                return C(a.a[0] ^ b.a[0])
            return mk("xor", *sorted((a, b), key=lambda e: e.id))
        if o == "and":
            return BAND(V(i.ops[0]), V(i.ops[1]))
        if o == "or":
            return BOR(V(i.ops[0]), V(i.ops[1]))
        if o == "select":
            return SEL(V(i.ops[0]), V(i.ops[1]), V(i.ops[2]))
        if o in ("udiv", "sdiv", "urem", "srem", "lshr", "ashr"):
            a, b = V(i.ops[0]), V(i.ops[1])
            if a.op == "c" and b.op == "c" and a.a[0] >= 0 and b.a[0] > 0:
                x, y = a.a[0], b.a[0]
                return C(x // y if "div" in o else x % y if "rem" in o else x >> y)
            return mk(o, a, b)
        if o == "load":
            return self._memq(self.addr_of(i), i.raw.get("sz", 8), i.block, i.idx)
        if o in ("call", "invoke"):
            c = i.callee or ""
            if c.startswith("llvm.expect") or c.startswith("llvm.threadlocal.address"):
                return V(i.ops[0])
            return mk("call", i.id, c)
        if o == "phi":
            return self._phi(i)
        if o == "alloca":
            return mk("alloca", i.id)
        if o == "extractvalue":
            a = V(i.ops[0])
            if a.op == "xchg":
                return mk("ext", a, tuple(i.raw["ix"]))
            return mk("ext", a, tuple(i.raw["ix"]))
        if o == "insertvalue":
            return mk("ins", V(i.ops[0]), V(i.ops[1]), tuple(i.raw["ix"]))
        if o == "atomicrmw":
            return mk("rmw", i.id)
        if o == "cmpxchg":
            return mk("xchg", i.id)
        return mk("op", i.id)

    def _phi(self, i):
        B = i.block
        inc = dict((b, v) for v, b in i.inc)
        if B in self.loop:
            return self._loop_phi(i, inc)
        if len(inc) == 1:
            return self.val(i.inc[0][0])
        r = self.gate(B, lambda b: self.val(inc[b]))
        return r if r is not None else mk("op", i.id)

    def _loop_phi(self, i, inc):
        B = i.block
        opaque = mk("lphi", i.id)
        if self.phidec.get(i.id) == "opaque":
            return opaque
        entry = [v for b, v in inc.items() if (b, B) not in self.back]
        if not entry:
            return opaque
        e0s = {self.val(v) for v in entry}
        if len(e0s) != 1 or any(x.op in ("op", "undef") for x in e0s):
            self.phidec[i.id] = "opaque"
            return opaque
        e0 = e0s.pop()
        if i.id not in self.phidec:
            self.phidec[i.id] = e0
            self.pending.append(("phi", i))
        return self._rebuild(e0, lambda a, s: self._memq(a, s, B, 0), {})

    def _rebuild(self, e, at, memo):
        """the same expression with every memory content re-read by `at`"""
        if e.id in memo:
            return memo[e.id]
        if e.op in ("ld", "lmem"):
            a = self._rebuild(e.a[0] if e.op == "ld" else e.a[1], at, memo)
            r = at(a, e.a[1] if e.op == "ld" else e.a[2])
        elif not children(e) or e.op in LEAF:
            r = e
        else:
            r = subst(e, {c: self._rebuild(c, at, memo) for c in children(e)})
        memo[e.id] = r
        return r

    def _phi_holds(self, i):
        B = i.block
        e0 = self.phidec.get(i.id)
        if e0 is None or e0 == "opaque":
            return True
        for v, b in i.inc:
            if (b, B) not in self.back:
                continue
            n = len(self.fn.blocks[b])
            exp = self._rebuild(e0, lambda a, s: self._memq(a, s, b, n), {})
            got = self.val(v)
            if got is not exp and self.diff(got, exp) != "eq":
                return False
        return True

    # ---- memory
    def diff(self, a, b):
        """'eq', 'ne' (with constant distance in .d), or 'may' for two address expressions; returns
        ('c', d) for a constant distance a-b, 'no' for provably/assumed distinct, 'may'."""
        d = ADD(a, b, 1, -1)
        if d is ZERO:
            return "eq"
        if d.op == "c":
            return ("c", d.a[0])
        vs = leaves(d)
        idx = [v for v in vs if self._small(v)]
        if vs and len(idx) == len(vs) and len(vs) <= 8:
            try:
                vals = {v[0] for _, v in tabulate([d], lambda v: (0, 1))}
            except AnalysisBroken:
                return "no"
            if vals == {0}:
                return "eq"
            if len(vals) == 1:
                return ("c", vals.pop())
            return ("set", frozenset(vals))
        return "no"

    def _small(self, v):
        return v.op in ("ld", "lmem", "out", "clob") and v.a[-1] == 1 or v.op == "exit" or is_bool(v)

    def _apart(self, f1, f2):
        """access paths that can never name overlapping cells"""
        return bool(f1) and bool(f2) and f1[-1] != f2[-1]

    def effect(self, i, addr, size):
        """how instruction i changes the cell: None, ('v', value), ('may',)"""
        fn = self.fn
        if i.op == "store":
            if self._apart(i.fields, self.field(addr)):
                return None
            d = self.diff(addr, self.addr_of(i))
            s = i.raw.get("sz", 8)
            if d == "no" or d is None:
                return None
            if d == "eq":
                if s == size:
                    return ("v", self.val(i.ops[0]))
                return ("may",)
            if d[0] == "c":
                if -size < d[1] < s:
                    return ("may",)
                return None
            return ("may",) if any(-size < x < s for x in d[1]) else None
        if i.op in ("atomicrmw", "cmpxchg"):
            if self._apart(i.fields, self.field(addr)):
                return None
            d = self.diff(addr, self.val(i.ops[0]))
            if d == "eq" or (isinstance(d, tuple) and any(-size < x < 8 for x in ([d[1]] if d[0] == "c" else d[1]))):
                return ("may",)
            return None
        if i.op not in ("call", "invoke"):
            return None
        c = i.callee or ""
        if c.startswith("llvm.dbg") or c.startswith("llvm.lifetime") or c.startswith("llvm.expect") or c in NO_EFFECT:
            return None
        if c.startswith(("llvm.memset", "llvm.memcpy", "llvm.memmove")):
            if i.fields and self.field(addr) and not self._covers(i.fields, self.field(addr)):
                return None
            n = self.val(i.ops[2])
            d = self.diff(addr, self.val(i.ops[0]))
            if d == "no":
                return None
            if n.op != "c":
                if d == "eq" or (d[0] == "c" and d[1] >= 0):
                    return ("may",)
                return None
            n = n.a[0]
            if d == "eq":
                d = ("c", 0)
            if d[0] == "c":
                if d[1] >= n or d[1] <= -size:
                    return None
                if d[1] < 0 or d[1] + size > n:
                    return ("may",)
                if c.startswith("llvm.memset"):
                    v = self.val(i.ops[1])
                    return ("v", ZERO) if v is ZERO else ("may",)
                src = ADD(self.val(i.ops[1]), C(d[1]))
                if self.field(addr) and src not in self._afield:
                    self._afield[src] = self.field(addr)
                return ("v", self._memq(src, size, i.block, i.idx))
            return ("may",) if any(-size < x < n for x in d[1]) else None
        if c.startswith("llvm."):
            return None
        base = self._alloca(addr)
        bv = i.raw.get("byval") or []
        if base is not None:
            from engine.ir import READONLY_ARGS
            for k, a in enumerate(i.ops):
                if k in bv:
                    continue
                av = self.val(a)
                b = self._alloca(av)
                if b == base:
                    if c in READONLY_ARGS and (READONLY_ARGS[c] is None or k in READONLY_ARGS[c]):
                        continue
                    d = ADD(addr, av, 1, -1)
                    if d.op == "c" and d.a[0] < 0 and c in OUT_ONLY:
                        continue
                    if d.op == "c" and d.a[0] >= 32 and "basic_string" in c[:30]:
                        continue  # a string is that large
                    return ("v", mk("out", i.id, k, d, size))
                if b is not None and b != base and self._holds(b, base) and c not in READONLY_ARGS and not c.endswith("_pred"):
                    return ("v", mk("clob", i.id, addr, size))
            return None
        eff = self.effects.get(c)
        if eff is None and c in OUT_ONLY:
            eff = ("args", OUT_ONLY[c])
        if eff == "none":
            return None
        if isinstance(eff, tuple) and eff[0] == "args":
            for k in eff[1]:
                if k < len(i.ops):
                    d = ADD(addr, self.val(i.ops[k]), 1, -1)
                    if d.op == "c" and d.a[0] >= 0:
                        return ("v", mk("out", i.id, k, d, size))
            return None
        if eff is None and c and c not in fn.view.defined and not c.startswith("a0_"):
            # library function: through its pointer arguments only
            for k, a in enumerate(i.ops):
                d = ADD(addr, self.val(a), 1, -1)
                if d.op == "c" and d.a[0] >= 32 and "basic_string" in c[:30]:
                    continue
                if d.op == "c" and 0 <= d.a[0] < 4096 and self.val(a).op != "c":
                    from engine.ir import READONLY_ARGS
                    if c in READONLY_ARGS and (READONLY_ARGS[c] is None or k in READONLY_ARGS[c]):
                        continue
                    return ("v", mk("out", i.id, k, d, size))
            return None
        if self._const_mem(addr):
            return None
        if self.clobbers is not None and not self.clobbers(c, self.field(addr), addr):
            return None
        return ("v", mk("clob", i.id, addr, size))

    def _covers(self, copied, f):
        """can a bulk write to access path `copied` touch the member path f?"""
        st, m = copied[-1].split(".", 1)
        members = {x[0]: x[3] for x in self.fn.view.structs.get(st, {"members": []})["members"]}
        ty = members.get(m)
        if ty is None:
            return True
        names = set()

        def walk(t):
            while t and t[0] == "arr":
                t = t[-1] if isinstance(t[-1], list) else t[1]
            if t and t[0] == "struct" and t[1] not in names:
                names.add(t[1])
                for x in self.fn.view.structs.get(t[1], {"members": []})["members"]:
                    walk(x[3])
        walk(ty)
        # whole-object writes are annotated with their first member
        names.add(st)
        return f[-1].split(".", 1)[0] in names

    def _const_mem(self, addr):
        c, t = parts(addr)
        return len(t) == 1 and next(iter(t)).op == "g" and self.fn.view.globals.get(next(iter(t)).a[0], {}).get("const")

    def _alloca(self, addr):
        c, t = parts(addr)
        al = [k for k in t if k.op == "alloca"]
        return al[0].a[0] if len(al) == 1 else None

    def _holds(self, holder, aid):
        return self.fn.local_holds(holder, aid)

    def mem(self, addr, size, block, idx, field=None):
        """content of the cell just before instruction idx of block"""
        if field:
            self._afield.setdefault(addr, field)
        return self._solve(lambda: self._memq(addr, size, block, idx))

    def _memq(self, addr, size, block, idx):
        key = (addr, size, block, idx)
        if key in self.mmemo:
            return self.mmemo[key]
        c, t = parts(addr)
        sl = [k for k in t if k.op == "sel" and t[k] == 1 and not is_bool(k) and
              (k.a[1].op in ("alloca", "g", "lin", "arg", "ld") or k.a[2].op in ("alloca", "g", "lin", "arg", "ld"))]
        if len(sl) == 1:
            k = sl[0]
            rest = LIN(c, {x: v for x, v in t.items() if x is not k})
            f = self.field(addr)
            a1, a2 = ADD(rest, k.a[1]), ADD(rest, k.a[2])
            if f:
                self._afield.setdefault(a1, f)
                self._afield.setdefault(a2, f)
            r = SEL(k.a[0], self._memq(a1, size, block, idx), self._memq(a2, size, block, idx))
            self.mmemo[key] = r
            return r
        if len(t) == 1:
            (b, k), = t.items()
            if b.op == "g" and k == 1:
                x = const_cell(self.fn.view, b.a[0], c, size)
                if x is not None and x[0] in ("c", "g", "f"):
                    r = self.val(tuple(x))
                    self.mmemo[key] = r
                    return r
        if key in self._inprog:
            return mk("op", "cyc", addr, block, idx)
        self._inprog.add(key)
        try:
            r = self._mem(addr, size, block, idx)
        finally:
            self._inprog.discard(key)
        self.mmemo[key] = r
        return r

    def _mem(self, addr, size, block, idx):
        blk = self.fn.blocks[block]
        for j in range(idx - 1, -1, -1):
            i = blk[j]
            if i.op not in ("store", "call", "invoke", "atomicrmw", "cmpxchg"):
                continue
            ef = self.effect(i, addr, size)
            if ef is None:
                continue
            if ef[0] == "v":
                return ef[1]
            return mk("may", i.id, addr, size)
        if block == 0:
            if self._alloca(addr) is not None:
                return mk("undef")
            g = self._global_init(addr, size)
            return g if g is not None else mk("ld", addr, size)
        if block in self.loop:
            k = (block, addr, size)
            if self.loopdec.get(k) == "dirty":
                return mk("lmem", block, addr, size)
            if k not in self.loopdec:
                self.loopdec[k] = "clean"
                self.pending.append(("mem", block, addr, size))
            ent = [p for p in self.fn.preds[block] if (p, block) not in self.back]
            if len(ent) == 1:
                return self._memq(addr, size, ent[0], len(self.fn.blocks[ent[0]]))
            r = self.gate(block, lambda b: self._memq(addr, size, b, len(self.fn.blocks[b])))
            return r if r is not None else mk("op", "mem", addr, block)
        ps = self.fn.preds[block]
        if len(ps) == 1:
            p = ps[0]
            return self._memq(addr, size, p, len(self.fn.blocks[p]))
        r = self.gate(block, lambda b: self._memq(addr, size, b, len(self.fn.blocks[b])))
        return r if r is not None else mk("op", "mem", addr, block)

    def _global_init(self, addr, size):
        return None

    def before(self, inst, addr, size):
        return self.mem(addr, size, inst.block, inst.idx)

    def after(self, inst, addr, size):
        return self.mem(addr, size, inst.block, inst.idx + 1)

    def at_ret(self, addr, size):
        """content at the function's return (gated over all returns)"""
        return self._merge_rets(lambda r: self.mem(addr, size, r.block, r.idx))

    def ret(self):
        return self._merge_rets(lambda r: self.val(r.ops[0]) if r.ops else ZERO)

    def _merge_rets(self, f):
        rs = self.fn.rets()
        r = None
        for x in rs:
            v = f(x)
            r = v if r is None else SEL(self.reach(x.block), v, r)
        return r
