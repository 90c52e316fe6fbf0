"""C27: names. What text every path handed to the operating system has, for each kind of name, template and root.

Text is followed as pieces: which stretch of which string lies where in which buffer. Each function is explored for
every kind of name (null, empty, absolute, relative), template and root; the library's string functions are taken to do
what they document.
"""
import re
from rules.common import *
from rules.writers import public, no_clobber, string_at
from engine.ir import lin_add, lin_parts, mk_lin, mk_cmp as icmp, is_bool

ZC = ("c", 0)
ENOENT = 2
# calls that make, open or remove something: argument that names it
TOUCH = {"open": 0, "mkstemp": 0, "mkdir": 0, "link": 1, "unlink": 0, "remove": 0, "rmdir": 0, "opendir": 0, "creat": 0, "rename": 1,
         "a0_file_open": 0, "a0_file_remove": 0, "a0_file_remove_all": 0, "nftw": 0, "symlink": 1, "mknod": 0, "truncate": 0, "chmod": 0}
LOOK = {"stat": 0, "lstat": 0, "access": 0}
READS = {"strlen", "strnlen", "strcmp", "strncmp", "strstr", "strchr", "strrchr", "memcmp", "strdup", "strndup", "strcasecmp"}
S_IFMT, S_IFDIR, S_IFLNK, S_IFREG = 0xF000, 0x4000, 0xA000, 0x8000
DT_DIR, DT_LNK, DT_REG = 4, 10, 8
D_TYPE, D_NAME = 18, 19
ST_MODE = 24


def sub(a, b):
    return lin_add(a, b, 1, -1)


def is_src(t):
    """does t name a string that is not built here"""
    return t[0] in ("arg", "str", "lit", "dir", "dname")


class Texts:
    """explores fn; state is (cells, values, pieces, kinds, bounds, x)"""

    def __init__(self, c, fn, rule, kinds, sizes=None):
        self.c, self.fn, self.rule, self.kinds, self.sizes = c, fn, rule, kinds, sizes or {}
        self.name = fn.name

    # -- values
    def canon(self, st, e):
        if e[0] == "g":
            s = self.fn.view.string(e)
            return ("lit", s) if s is not None else e
        if e[0] == "lin":
            r = ("c", e[1])
            for t, k in e[2]:
                v = self.canon(st, t)
                n, ts = lin_parts(v)
                r = lin_add(r, mk_lin(n * k, {q: z * k for q, z in ts.items()}))
            return r
        if e[0] == "out":
            return self.memval(st, lin_add(self.canon(st, self.fn.expr(self.fn.insts[e[1]].ops[e[2]])), ("c", e[3])))
        if e[0] in ("load", "call", "phi", "alloca"):
            for k, v in st[1]:
                if k == e[1]:
                    return v
            if e[0] == "phi":
                b = self.derived(st, e[1])
                if b is not None:
                    return lin_add(b, ("any", e[1]))
            if e[0] == "alloca":
                return ("buf", e[1])
        return e

    def memval(self, st, p):
        """what is known of memory not written here"""
        return ("mem", p)

    def val(self, st, ctx, op):
        e = ctx.expr(op)
        while e[0] == "sel" and ctx.truth(e[1]) is not None:
            e = e[2] if ctx.truth(e[1]) else e[3]
        while e[0] == "lin" and any(t[0] == "sel" and ctx.truth(t[1]) is not None for t, k in e[2]):
            t, k = next((t, k) for t, k in e[2] if t[0] == "sel" and ctx.truth(t[1]) is not None)
            e = lin_add(lin_add(e, t, 1, -k), t[2] if ctx.truth(t[1]) else t[3], 1, k)
        if e[0] == "lin" and any(is_bool(t) for t, k in e[2]):
            n, ts = e[1], {}
            for t, k in e[2]:
                b = ctx.truth(t) if is_bool(t) else None
                if b is None:
                    ts[t] = k
                else:
                    n += k * b
            e = mk_lin(n, ts)
        return self.canon(st, e)

    def derived(self, st, pid):
        """base of the one string a looping pointer moves along"""
        seen, out, work = set(), set(), [("i", pid)]
        while work:
            v = work.pop()
            if v in seen or v[0] == "u":
                continue
            seen.add(v)
            i = self.fn.insts[v[1]] if v[0] == "i" else None
            if i is not None and i.op == "phi":
                work += i.ops
            elif i is not None and (i.op == "getelementptr" or i.op == "call" and i.callee in ("strchr", "strrchr", "strstr")):
                work.append(i.ops[0])
            elif i is not None and i.op in ("call", "load"):
                known = [x for k, x in st[1] if k == i.id]
                b = self.base(known[0]) if known else None
                out.add(b and b[0])
            else:
                out.add(("arg", v[1]) if v[0] == "a" else None)
        return out.pop() if len(out) == 1 else None

    def base(self, p):
        """(string or buffer, offset) a pointer value points into"""
        n, ts = lin_parts(p)
        bs = [t for t, k in ts.items() if k == 1 and (t[0] in ("buf", "str", "lit", "dir", "dname") or t[0] == "arg" and t[1] in self.pointers)]
        if len(bs) != 1:
            return None
        return bs[0], sub(p, bs[0])

    def length(self, src):
        return ("c", len(src[1])) if src[0] == "lit" else ("len", src)

    def slen(self, st, p):
        """length of the text at p"""
        t = self.text(st, p)
        if t is None or t[0] == "cut":
            return None
        r = ZC
        for k in t[1]:
            r = lin_add(r, ("c", len(k[1])) if k[0] == "lit" else k[2])
        return r

    def text(self, st, p):
        """("text" or "cut", pieces) of the string at p; a piece is ("lit", s) or (source, offset, length)"""
        b = self.base(p)
        if b is None:
            return None
        b, off = b
        if b[0] != "buf" and b not in self.sizes:
            return ("text", self.tidy([(b, off, sub(self.length(b), off))]))
        out = []
        mine = {o: (w, n) for q, o, w, n in st[2] if q == b}
        cut = any(w == ("chr", 0) and any(t[0] in ("any", "chr@") for t in lin_parts(o)[1]) for o, (w, n) in mine.items())
        for _ in range(len(mine) + 1):
            if off not in mine:
                return None
            w, n = mine[off]
            if w == ("chr", 0):
                return ("cut" if cut else "text", self.tidy(out))
            out.append(("lit", chr(w[1])) if w[0] == "chr" else (w[0], w[1], n))
            off = lin_add(off, n)
        return None

    def tidy(self, ps):
        out = []
        for p in ps:
            if p[0] != "lit" and isinstance(p[0], tuple) and p[0][0] == "lit" and p[1][0] == "c" and p[2][0] == "c":
                p = ("lit", p[0][1][p[1][1]:p[1][1] + p[2][1]])
            if p[0] == "lit" and p[1] == "" or p[0] != "lit" and p[2] == ZC:
                continue
            if out and out[-1][0] == "lit" and p[0] == "lit":
                out[-1] = ("lit", out[-1][1] + p[1])
            elif out and out[-1][0] != "lit" and p[0] != "lit" and out[-1][0] == p[0] and lin_add(out[-1][1], out[-1][2]) == p[1]:
                out[-1] = (p[0], out[-1][1], lin_add(out[-1][2], p[2]))
            else:
                out.append(p)
        return tuple(out)

    # -- memory
    def put(self, st, i, p, pieces, end):
        """the string pieces (with their terminator if end) are written at p"""
        b = self.base(p)
        if b is None:
            return st
        b, off = b
        if b[0] != "buf" and b not in self.sizes:
            return st
        cells, vals, ps, kinds, bounds, x = st
        for k in list(pieces) + ([("chr", 0)] if end else []):
            n = ("c", 1) if k[0] == "chr" else ("c", len(k[1])) if k[0] == "lit" else k[2]
            if k[0] == "lit":
                w = (k, ZC)
            elif k[0] == "chr":
                w = k
            else:
                w = (k[0], k[1])
            ps = frozenset(q for q in ps if not (q[0] == b and q[1] == off))
            if not (k == ("chr", 47) and any(t[0] == "chr@" and t[2] == 47 for t in lin_parts(off)[1])):  # puts back what was there
                if n != ZC:
                    ps = ps | {(b, off, w, n)}
            off = lin_add(off, n)
        self.fits(st, i, b, off)
        return (cells, vals, ps, kinds, bounds, x)

    def fits(self, st, i, b, end):
        """a write that ends at offset end of b"""
        size = next((f[1] for f in st[5] if f[0] == ("size", b)), None)
        if b in self.sizes:
            size = ("c", self.sizes[b])
        if size is None or any(t[0] not in ("len", "pos") + (("mem",) if b in self.sizes else ()) for t in lin_parts(end)[1]):
            return  # not followed
        room = sub(size, end)
        for t in lin_parts(room)[1]:
            if t[0] == "pos":  # the string is what precedes it, it and the rest
                k = lin_parts(room)[1].get(("len", t[1]), 0)
                whole = lin_add(lin_add(t, ("c", len(t[2]))), ("len", ("after",) + t))
                if k == 1:
                    room = lin_add(sub(room, ("len", t[1])), whole)
        n, ts = lin_parts(room)
        # terms that are lengths only make more room
        ok = n >= 0 and all(k > 0 and t[0] in ("len", "pos") for t, k in ts.items())
        for a, lim in st[4]:
            d = sub(a, end)
            if size[0] == "c" and d[0] == "c" and lim - 1 - d[1] <= size[1]:
                ok = True
        self.c.expect(ok, self.rule, i, "%s writes a name past the end of its buffer" % self.name, self.e.path())

    # -- exploration
    def kind(self, st, src):
        return next((v for k, v in st[3] if k == src), None)

    def event(self, st, i, ctx):
        return st

    def final(self, st, i, ctx):
        pass

    def chars(self, st, src, off):
        """character at offset off, as ('is', c) or ('not', set)"""
        k = self.kind(st, src)
        if src[0] == "dname":
            fixed = {".": ".", "..": "..", ".x": ".?", "..x": "..?", "x": "?"}.get(k)
            if fixed is None or off > len(fixed):
                return None
            ch = (fixed + "\0")[off]
            return ("not", (0, 46)) if ch == "?" else ("is", ord(ch))
        if off == 0 and k in ("empty", "abs", "rel"):
            return {"empty": ("is", 0), "abs": ("is", 47), "rel": ("not", (0, 47))}[k]
        return None

    def known(self, v, ch, more=()):
        """conditions on value v of a character"""
        if ch[0] == "is":
            return [(icmp("eq", v, ("c", k)), k == ch[1]) for k in (0, 46, 47) + more]
        return [(icmp("eq", v, ("c", k)), False) for k in ch[1]]

    def setval(self, st, i, v):
        cells, vals, ps, kinds, bounds, x = st
        return (cells, frozenset(k for k in vals if k[0] != i.id) | ({(i.id, v)} if v is not None else set()), ps, kinds, bounds, x)

    def alloc(self, st, i, size, pieces=None):
        b = ("buf", i.id)
        cells, vals, ps, kinds, bounds, x = self.setval(st, i, b)
        ps = frozenset(q for q in ps if q[0] != b)
        x = frozenset(f for f in x if f[0] != ("size", b))
        if size is not None:
            x = x | {(("size", b), size)}
        st = (cells, vals, ps, kinds, bounds, x)
        return st if pieces is None else self.put(st, i, b, pieces, True)

    def compare(self, st, a, b, n):
        """is text a equal to text b over n characters (None: to the end): True, False or None"""
        for s, t in ((a, b), (b, a)):
            bs, bt = self.base(s), self.base(t)
            if bs and bt and bt[0][0] == "lit" and bt[1] == ZC and bs[1][0] == "c":
                lit = bt[0][1] + "\0"
                for k, ch in enumerate(lit[:n] if n is not None else lit):
                    have = self.chars(st, bs[0], bs[1][1] + k)
                    if have is None:
                        return None
                    if have[0] == "is" and have[1] != ord(ch) or have[0] == "not" and ord(ch) in have[1]:
                        return False
                    if have[0] == "not":
                        return None
                return True
        return None

    def format(self, st, ctx, fmt, args):
        """pieces a format produces"""
        out, args = [], list(args)
        for m in re.finditer(r"%%|%\.\*s|%s|%[^%]|[^%]+", fmt):
            t = m.group(0)
            if t == "%%":
                out.append(("lit", "%"))
            elif t == "%s":
                p = self.text(st, self.val(st, ctx, args.pop(0)))
                if p is None or p[0] == "cut":
                    return None
                out += p[1]
            elif t == "%.*s":
                n, p = self.val(st, ctx, args.pop(0)), self.base(self.val(st, ctx, args.pop(0)))
                if p is None or p[0][0] == "buf":
                    return None
                out.append((p[0], p[1], n))
            elif t[0] == "%":
                return None
            else:
                out.append(("lit", t))
        return out

    def step(self, st, i, ctx):
        fn = self.fn
        n = i.callee or ""
        v = fn.expr(("i", i.id)) if i.op in ("call", "load") else None
        if i.op == "store":
            p, w = self.val(st, ctx, i.ops[1]), self.val(st, ctx, i.ops[0])
            if i.raw.get("sz") == 1:
                ch = w[1] if w[0] == "c" else None
                return self.put(st, i, p, [("chr", ch)] if ch is not None else [(("any", i.id), ZC, ("c", 1))], False)
            n, ts = lin_parts(p)
            if any(t[0] not in ("arg", "buf") for t in ts):
                return st
            # what is neither text nor a length is not followed
            if not self.keeps(w):
                w = ("any", p)
            return (frozenset(k for k in st[0] if k[0] != p) | {(p, w)},) + st[1:]
        if i.op == "alloca":
            e = self.val(st, ctx, i.ops[0])
            return self.alloc(st, i, e if e[0] != "c" else ("c", i.raw.get("size") or 0) if i.raw.get("size") else None)
        if i.op == "load":
            p = self.val(st, ctx, i.ops[0])
            b = self.base(p)
            out = self.event_load(st, i, ctx, p, v)
            if out is not None:
                return out
            if b is not None and b[1][0] == "c" and is_src(b[0]):
                if self.null(st, i, b[0]):
                    return None
                ch = self.chars(st, b[0], b[1][1])
                if ch is not None:
                    return Assume(st, *self.known(v, ch))
            got = [w for k, w in st[0] if k == p]
            return self.setval(st, i, got[0] if got else self.memval(st, p))
        if i.op not in ("call", "invoke") or n.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume")):
            return st
        st = self.setval(st, i, None)
        if n in READS:
            for o in i.ops[:2]:
                b = self.base(self.val(st, ctx, o))
                if b is not None and self.null(st, i, b[0]):
                    return None
        z = is_zero(fn, i)
        a = lambda k: self.val(st, ctx, i.ops[k])
        if n == "strlen":
            b = self.base(a(0))
            t = self.slen(st, a(0))
            s2 = self.setval(st, i, t) if t is not None else st
            if b is not None and b[1] == ZC and self.kind(st, b[0]) is not None:
                return Assume(s2, (z, self.kind(st, b[0]) == "empty"))
            return Assume(s2, (z, False)) if t is not None else s2
        if n in ("strcmp", "strncmp", "memcmp"):
            r = self.compare(st, a(0), a(1), None if n == "strcmp" else a(2)[1] if a(2)[0] == "c" else 0)
            return st if r is None else Assume(st, (z, r))
        if n == "strstr":
            b, w = self.base(a(0)), a(1)
            if b is None or w[0] != "lit" or b[1] != ZC:
                return st
            k = self.kind(st, b[0])
            if k in ("none", "has") and w[1] == "{topic}":
                s2 = self.setval(st, i, lin_add(b[0], ("pos", b[0], w[1]))) if k == "has" else st
                return Assume(s2, (z, k == "none"))
            return st
        if n in ("strchr", "strrchr"):
            b, w = self.base(a(0)), a(1)
            if b is None or w[0] != "c":
                return st
            r = lin_add(b[0], ("chr@", i.id, w[1]))
            return [Assume(self.setval(st, i, r), (z, False)), Assume(self.setval(st, i, ZC), (z, True))]
        if n in ("malloc", "calloc"):
            size = a(0)
            if n == "calloc":
                size = a(1) if a(0) == ("c", 1) else a(0) if a(1) == ("c", 1) else None
            return Assume(self.alloc(st, i, size), (z, False))
        if n == "strdup":
            t = self.text(st, a(0))
            k = self.slen(st, a(0))
            return Assume(self.alloc(st, i, None if k is None else lin_add(k, ("c", 1)), t[1] if t and t[0] == "text" else None), (z, False))
        if n.startswith(("llvm.memcpy", "llvm.memmove")) or n in ("memcpy", "memmove", "mempcpy"):
            b, d, k = self.base(a(1)), a(0), a(2)
            if b is None:
                return st
            if b[0][0] == "buf" or b[0] in self.sizes:
                t = self.text(st, a(1))
                total = self.slen(st, a(1))
                if t is None or total is None or t[0] != "text":
                    return st
                if k == lin_add(total, ("c", 1)) or k == total:
                    return self.put(st, i, d, t[1], k != total)
                return self.put(st, i, d, [(("part", b[0]), b[1], k)], False)
            rest = sub(self.length(b[0]), b[1])
            if k == lin_add(rest, ("c", 1)):
                return self.put(st, i, d, [(b[0], b[1], rest)], True)
            return self.put(st, i, d, self.tidy([(b[0], b[1], k)]), False)
        if n in ("strcpy", "stpcpy"):
            t = self.text(st, a(1))
            if t is None or t[0] == "cut":
                return st
            s2 = self.put(st, i, a(0), t[1], True)
            return self.setval(s2, i, a(0) if n == "strcpy" else lin_add(a(0), self.slen(st, a(1))))
        if n == "strcat":
            t, k = self.text(st, a(1)), self.slen(st, a(0))
            if t is None or k is None:
                return st
            return self.setval(self.put(st, i, lin_add(a(0), k), t[1], True), i, a(0))
        if n in ("snprintf", "sprintf", "asprintf"):
            f = i.ops[2 if n == "snprintf" else 1]
            fmt = self.val(st, ctx, f)
            ps = self.format(st, ctx, fmt[1], i.ops[3 if n == "snprintf" else 2:]) if fmt[0] == "lit" else None
            if ps is None:
                return st
            if n == "asprintf":
                raise AnalysisBroken("%s: asprintf is not modelled" % self.name)
            total = ZC
            for k in ps:
                total = lin_add(total, ("c", len(k[1])) if k[0] == "lit" else k[2])
            if n == "snprintf":
                d, ts = lin_parts(sub(a(1), lin_add(total, ("c", 1))))
                if d < 0 or ts:
                    ps = ps + [("cutoff", ZC, ("any", i.id))]
            return self.setval(self.put(st, i, a(0), ps, True), i, total)
        if n == "dirname":
            t = self.text(st, a(0))
            return Assume(self.setval(st, i, ("dir", t)) if t else st, (z, False))
        if n == "a0_env_root":
            return Assume(self.setval(st, i, ("str", "root")), (z, False))
        if n == "free":
            b = self.base(a(0))
            if b is None:
                return st
            return st[:2] + (frozenset(q for q in st[2] if q[0] != b[0]),) + st[3:5] + (frozenset(f for f in st[5] if f[0] != ("size", b[0])),)
        return st

    def keeps(self, w):
        return self.base(w) is not None or w == ("dtype",) or w[0] != "c" and all(t[0] in ("len", "pos") for t in lin_parts(w)[1])

    def edge(self, st, facts, ctx, src, dst):
        return st

    def event_load(self, st, i, ctx, p, v):
        return None

    def null(self, st, i, src):
        if self.kind(st, src) != "null":
            return False
        self.c.bad(self.rule, i, "%s reads through a null name" % self.name, self.e.path())
        return True

    def dropped(self):
        return self.fn.counters()

    def matters(self, o, src):
        return True

    def initial(self):
        out = [()]
        for src, ks in self.kinds:
            out = [o + ((src, k),) for o in out for k in (ks if self.matters(dict(o), src) else ks[-1:])]
        return [(frozenset(), frozenset(), frozenset(), frozenset(o), frozenset(), frozenset()) for o in out]

    def run(self):
        fn = self.fn
        self.pointers = {k for k, p in enumerate(fn.params) if p["ty"] == "ptr"}

        def on_inst(st, i, ctx):
            pre = []
            if i is first:
                for src, k in st[3]:
                    if src[0] == "arg":
                        pre.append((icmp("eq", src, ZC), k == "null"))
            s = self.event(st, i, ctx)
            if s is None:
                return None
            out = []
            for q in s if isinstance(s, list) else [s]:
                q = q if isinstance(q, Assume) else Assume(q)
                r = self.step(q.state, i, ctx)
                if r is None:
                    continue
                for t in r if isinstance(r, list) else [r]:
                    t = t if isinstance(t, Assume) else Assume(t)
                    out.append(Assume(t.state, *(pre + list(q.conds) + list(t.conds))))
            return out

        def on_edge(st, facts, ctx, src, dst):
            st = self.edge(st, facts, ctx, src, dst)
            cells, vals, ps, kinds, bounds, x = st
            for e, truth in facts:
                if e[0] == "not":
                    e, truth = e[1], not truth
                if e[0] == "cmp" and e[1] == "ult":
                    if truth and e[3][0] == "c":
                        bounds = bounds | {(self.canon(st, e[2]), e[3][1])}
                    if not truth and e[2][0] == "c":
                        bounds = bounds | {(self.canon(st, e[3]), e[2][1] + 1)}
            return (cells, frozenset(k for k in vals if k[0] in live[dst]), ps, kinds, bounds, x)
        first = next(i for i in fn.blocks[0] if i.op != "phi")
        live = fn.live_ids(lambda i: i.ops if i.op in ("store", "call", "load") else ())
        self.e = Explorer(fn, on_inst=on_inst, on_ret=lambda st, i, ctx: self.final(st, i, ctx), on_edge=on_edge, track=live, drop=self.dropped())
        run(self.c, self.e, self.initial())


def ret_zero(fn, i, ctx):
    """does the function report success here: True, False or None"""
    return ctx.truth(icmp("eq", ctx.expr(i.ops[0]), ZC))


class Resolve(Texts):
    """a function that is given a file name"""

    def __init__(self, c, fn, rule, arg, sizes=None):
        self.arg = ("arg", arg)
        Texts.__init__(self, c, fn, rule, [(self.arg, ("null", "empty", "abs", "rel")), (("str", "root"), ("empty", "rel", "abs"))], sizes)

    def matters(self, o, src):
        return src == self.arg or o[self.arg] == "rel"

    def fine(self, st):
        k = self.kind(st, self.arg)
        return k == "abs" or k == "rel" and self.kind(st, ("str", "root")) == "abs"

    def want(self, st):
        whole = lambda s: (s, ZC, ("len", s))
        if self.kind(st, self.arg) == "abs":
            return (whole(self.arg),)
        return (whole(("str", "root")), ("lit", "/"), whole(self.arg))

    def say(self, st):
        k, r = self.kind(st, self.arg), self.kind(st, ("str", "root"))
        words = {"null": "a null name", "empty": "an empty name", "abs": "an absolute name", "rel": "a relative name"}[k]
        if k == "rel":
            words += {"empty": " and an empty root", "rel": " and a root that is not absolute", "abs": ""}[r]
        return words

    def is_it(self, st, ctx, op):
        return self.text(st, self.val(st, ctx, op)) == ("text", self.want(st))

    def event(self, st, i, ctx):
        n = i.callee or ""
        if i.op != "call" or n not in TOUCH and n not in LOOK:
            return st
        if not self.fine(st):
            if n in TOUCH:
                self.c.bad("name-refuse", i, "%s goes on to %s with %s" % (self.name, n, self.say(st)), self.e.path())
                return None
            return st
        self.c.ok("name-refuse")
        op = i.ops[TOUCH.get(n, LOOK.get(n))]
        t = self.text(st, self.val(st, ctx, op))
        ok = t == ("text", self.want(st))
        if n in ("mkdir", "stat"):
            ok = t == ("cut", self.want(st)) or n == "stat" and ok
        elif n == "mkstemp":
            d = ("dir", ("text", self.want(st)))
            ok = t is not None and len(t[1]) > 1 and t[1][0] == (d, ZC, ("len", d)) and t[1][1][0] == "lit" and t[1][1][1][0] == "/" and "/" not in t[1][1][1][1:]
        elif n == "unlink":
            ok = True  # C21
        self.c.expect(ok, self.rule, i, "%s with %s: the path given to %s is not %s" % (
            self.name, self.say(st), n, "the name itself" if self.kind(st, self.arg) == "abs" else "the root, a slash and the name"), self.e.path())
        return st[:5] + (st[5] | {("done", n)},) if n in self.needs else st

    needs = ()

    def final(self, st, i, ctx):
        r = ret_zero(self.fn, i, ctx)
        if not self.fine(st):
            self.c.expect(r is False, "name-refuse", i, "%s reports success with %s" % (self.name, self.say(st)), self.e.path())
        elif r is not False:
            for n in self.needs:
                self.c.expect(("done", n) in st[5], self.rule, i, "%s reports success with %s without calling %s" % (self.name, self.say(st), n), self.e.path())
            self.success(st, i, ctx)

    def success(self, st, i, ctx):
        pass


class Remove(Resolve):
    needs = ("remove",)


class Glob(Resolve):
    def success(self, st, i, ctx):
        at = lin_add(("arg", 0), ("c", self.fn.view.offset("a0_pathglob_s.abspath.data")))
        w = [v for k, v in st[0] if k == at]
        self.c.expect(bool(w) and self.text(st, w[0]) == ("text", self.want(st)), self.rule, i,
                      "%s with %s keeps a pattern that is not the resolved one" % (self.name, self.say(st)), self.e.path())


class IterInit(Resolve):
    """makes a directory iterator: of a directory only, and its path ends with one slash"""
    needs = ("opendir",)

    def event(self, st, i, ctx):
        n = i.callee or ""
        st = Resolve.event(self, st, i, ctx)
        if st is None or i.op != "call":
            return st
        if n in ("lstat", "stat") and self.fine(st):
            buf = self.val(st, ctx, i.ops[1])
            z = is_zero(self.fn, i)
            v = self.fn.expr(("i", i.id))
            st = st[:5] + (frozenset(f for f in st[5] if f[0] != "kind"),)
            kinds = ("dir", "link", "file") if n == "lstat" else ("dir", "linked", "file")
            return [Assume(st[:5] + (st[5] | {("kind", k, buf)},), (z, True), (icmp("eq", v, ("c", -1)), False), (icmp("slt", v, ZC), False)) for k in kinds] + [
                Assume(st, (z, False), (icmp("eq", v, ("c", -1)), True), (icmp("slt", v, ZC), True))]
        if n == "opendir":
            k = [f[1] for f in st[5] if f[0] == "kind"]
            self.c.expect(k == ["dir"], "name-link", i, "%s opens %s" % (self.name, {
                "link": "a directory through a symbolic link", "linked": "a directory through a symbolic link", "file": "something that is not a directory"}.get(
                    k[0] if k else "", "a directory without having seen that it is not a symbolic link")), self.e.path())
            z = is_zero(self.fn, i)
            return [Assume(st, (z, False)), Assume(st, (z, True))]
        return st

    def event_load(self, st, i, ctx, p, v):
        for f in st[5]:
            if f[0] == "kind" and p == lin_add(f[2], ("c", ST_MODE)):
                mode = {"dir": S_IFDIR, "linked": S_IFDIR, "link": S_IFLNK, "file": S_IFREG}[f[1]]
                m = [e for e in (("and",) + tuple(sorted((v, ("c", S_IFMT)), key=repr)),)]
                return Assume(st, *[(icmp("eq", e, ("c", k)), k == mode) for e in m for k in (S_IFDIR, S_IFLNK, S_IFREG)])
        b = self.base(p)
        if b is not None and i.ty == "i8" and (b[0] == ("arg", 0) or b[0][0] == "buf"):
            w, total = self.want(st), ZC
            if not self.fine(st):
                return None
            for q in w:
                total = lin_add(total, ("c", len(q[1])) if q[0] == "lit" else q[2])
            if b[1] == sub(total, ("c", 1)):
                old = [f for f in st[5] if f[0] == "slash"]
                if old:
                    return Assume(st, *self.known(v, ("is", 47) if old[0][1] else ("not", (0, 47))))
                return [Assume(st[:5] + (st[5] | {("slash", s)},), *self.known(v, ("is", 47) if s else ("not", (0, 47)))) for s in (True, False)]
        return None

    def success(self, st, i, ctx):
        v = self.fn.view
        at = lambda f: lin_add(("arg", 0), ("c", v.offset("a0_file_iter_s." + f)))
        n = [w for k, w in st[0] if k == at("_path_len")]
        total = ZC
        for q in self.want(st):
            total = lin_add(total, ("c", len(q[1])) if q[0] == "lit" else q[2])
        has = [f[1] for f in st[5] if f[0] == "slash"] == [True]
        off, want = ZC, list(self.want(st)) + ([] if has else [("lit", "/")])
        mine = {o: (w, k) for q, o, w, k in st[2] if q == ("arg", 0)}
        ps, end = [], (total if has else lin_add(total, ("c", 1)))
        while off in mine and off != end:
            w, k = mine[off]
            ps.append(("lit", chr(w[1] or 0)) if w[0] == "chr" else (w[0], w[1], k))
            off = lin_add(off, k)
        self.c.expect(self.tidy(ps) == self.tidy(want) and n == [end], self.rule, i,
                      "%s with %s: the path entries are appended to is not the resolved directory and a slash" % (self.name, self.say(st)), self.e.path())


class IterNext(Texts):
    """the next entry of a directory: every name but the directory itself and its parent, once"""
    KINDS = (".", "..", ".x", "..x", "x")

    def event(self, st, i, ctx):
        if i.op != "call" or i.callee != "readdir":
            return st
        self.c.expect(not any(k == ("dname",) and v not in (".", "..") for k, v in st[3]), self.rule, i, "%s passes over an entry" % self.name, self.e.path())
        st = self.setval(st, i, None)
        base = frozenset(k for k in st[3] if k[0] != ("dname",))
        z = is_zero(self.fn, i)
        return [Assume(st[:3] + (base | {(("dname",), k)},) + st[4:], (z, False)) for k in self.KINDS] + [
            Assume(st[:3] + (base | {(("dname",), "end")},) + st[4:], (z, True))]

    def step(self, st, i, ctx):
        if i.op == "call" and i.callee == "readdir":
            return self.setval(st, i, lin_add(("dname",), ("c", -D_NAME)))
        return Texts.step(self, st, i, ctx)

    def event_load(self, st, i, ctx, p, v):
        if p == lin_add(("dname",), ("c", D_TYPE - D_NAME)):
            return self.setval(st, i, ("dtype",))
        return None

    def final(self, st, i, ctx):
        v = self.fn.view
        r = ret_zero(self.fn, i, ctx)
        k = self.kind(st, ("dname",))
        if k in (".", "..", "end"):
            what = {".": "the directory itself", "..": "the parent directory", "end": "something after the last entry"}[k]
            self.c.expect(r is False, self.rule, i, "%s reports %s" % (self.name, what), self.e.path())
            if k != "end":
                self.c.bad(self.rule, i, "%s stops before the last entry" % self.name, self.e.path())
            return
        if r is False:
            return self.c.ok(self.rule)  # too long a path
        cell = lambda f: next((w for q, w in st[0] if q == lin_add(("arg", 1), ("c", v.offset("a0_file_iter_entry_s." + f)))), None)
        self.c.expect(cell("fullpath") == ("arg", 0), self.rule, i, "the full path of an entry is not the iterator's", self.e.path())
        self.c.expect(cell("filename") == ("dname",), self.rule, i, "the name of an entry is not the directory's", self.e.path())
        self.c.expect(cell("d_type") == ("dtype",), self.rule, i, "the type of an entry is not the directory's", self.e.path())
        at = ("mem", lin_add(("arg", 0), ("c", v.offset("a0_file_iter_s._path_len"))))
        t = self.text(st, lin_add(("arg", 0), at))
        self.c.expect(t == ("text", ((("dname",), ZC, ("len", ("dname",))),)), self.rule, i,
                      "the full path of an entry does not end with its name", self.e.path())


class RemoveAll(Texts):
    """removes a tree: only what the iterator over it reported, and then the tree itself"""

    def event(self, st, i, ctx):
        if i.op != "call":
            return st
        n = i.callee or ""
        z = is_zero(self.fn, i)
        x = st[5]
        a = lambda k: self.val(st, ctx, i.ops[k])
        if n == "a0_file_iter_init":
            self.c.expect(a(1) == ("arg", 0), self.rule, i, "%s goes through another directory than the one to remove" % self.name, self.e.path())
            return [Assume(st[:5] + (x | {("iter", a(0))},), (z, True)), Assume(st[:5] + (x | {("refused",)},), (z, False))]
        if n == "a0_file_iter_next":
            self.c.expect(("iter", a(0)) in x, self.rule, i, "%s asks an iterator it has not made" % self.name, self.e.path())
            old = [f for f in x if f[0] == "entry"]
            self.c.expect(not any(f[2] != "gone" for f in old), self.rule, i, "%s leaves an entry behind" % self.name, self.e.path())
            x = frozenset(f for f in x if f[0] != "entry")
            return [Assume(st[:5] + (x | {("entry", a(1), k)},), (z, True)) for k in ("dir", "link", "file")] + [
                Assume(st[:5] + (x | {("end",)},), (z, False))]
        if n == "a0_file_iter_close":
            self.c.expect(("iter", a(0)) in x, self.rule, i, "%s closes an iterator it has not made" % self.name, self.e.path())
            return st
        if n in TOUCH:
            if ("refused",) in x:
                self.c.bad(self.rule, i, "%s goes on to %s although the directory was refused" % (self.name, n), self.e.path())
                return None
            w = a(TOUCH[n])
            e = [f for f in x if f[0] == "entry"]
            full = lambda f: ("mem", lin_add(f[1], ("c", self.fn.view.offset("a0_file_iter_entry_s.fullpath"))))
            mine = [f for f in e if w == full(f)]
            if mine:
                f = mine[0]
                if n == self.name:
                    return st[:5] + (x - {f} | {("entry", f[1], "emptied" if f[2] == "dir" else f[2])},)
                self.c.expect(n in ("a0_file_remove", "remove"), self.rule, i, "%s does not remove an entry by %s" % (self.name, n), self.e.path())
                self.c.expect(f[2] != "dir", self.rule, i, "%s removes a directory before what is in it" % self.name, self.e.path())
                return st[:5] + (x - {f} | {("entry", f[1], "gone")},)
            self.c.expect(n == "a0_file_remove" and w == ("arg", 0), self.rule, i, "%s removes something that is neither an entry nor the tree" % self.name, self.e.path())
            self.c.expect(("end",) in x, self.rule, i, "%s removes the tree before its entries" % self.name, self.e.path())
            s2 = st[:5] + (x | {("removed",)},)
            return [Assume(s2, (z, True)), Assume(s2, (z, False))]
        return st

    def event_load(self, st, i, ctx, p, v):
        off = self.fn.view.offset("a0_file_iter_entry_s.d_type")
        for f in st[5]:
            if f[0] == "entry" and p == lin_add(f[1], ("c", off)):
                t = {"dir": DT_DIR, "emptied": DT_DIR, "link": DT_LNK, "file": DT_REG}.get(f[2])
                if t is not None:
                    return Assume(st, *[(icmp("eq", v, ("c", k)), k == t) for k in (DT_DIR, DT_LNK, DT_REG)])
        return None

    def final(self, st, i, ctx):
        r = ret_zero(self.fn, i, ctx)
        if ("refused",) in st[5]:
            self.c.expect(r is False, "name-refuse", i, "%s reports success although the directory was refused" % self.name, self.e.path())
        elif r is not False:
            self.c.expect(("removed",) in st[5], self.rule, i, "%s reports success without removing the tree" % self.name, self.e.path())


class Topic(Texts):
    """a function that is given a template and a topic"""

    def __init__(self, c, fn, rule, tmpl, topic):
        self.tmpl, self.topic = ("arg", tmpl), ("arg", topic)
        Texts.__init__(self, c, fn, rule, [(self.tmpl, ("null", "none", "has")), (self.topic, ("null", "empty", "abs", "rel"))])

    def fine(self, st):
        return self.kind(st, self.tmpl) == "has" and self.kind(st, self.topic) == "rel"

    def say(self, st):
        a = {"null": "no template", "none": "a template without a place for the topic", "has": ""}[self.kind(st, self.tmpl)]
        b = {"null": "no topic", "empty": "an empty topic", "abs": "a topic that starts with a slash", "rel": ""}[self.kind(st, self.topic)]
        return " and ".join(x for x in (a, b) if x) or "a usable topic"

    def want(self):
        pos, n = ("pos", self.tmpl, "{topic}"), ("len", self.tmpl)
        return ((self.tmpl, ZC, pos), (self.topic, ZC, ("len", self.topic)), (self.tmpl, lin_add(pos, ("c", 7)), sub(n, lin_add(pos, ("c", 7)))))

    def event(self, st, i, ctx):
        n = i.callee or ""
        if i.op == "call" and n in TOUCH:
            if not self.fine(st):
                self.c.bad("name-refuse", i, "%s goes on to %s with %s" % (self.name, n, self.say(st)), self.e.path())
                return None
            self.c.ok("name-refuse")
            self.path(st, i, self.val(st, ctx, i.ops[TOUCH[n]]))
            return st[:5] + (st[5] | {("done", n)},)
        return st

    def path(self, st, i, p):
        self.c.expect(self.text(st, p) == ("text", self.want()), self.rule, i,
                      "%s: the path is not the template with the topic in its place" % self.name, self.e.path())

    def final(self, st, i, ctx):
        r = ret_zero(self.fn, i, ctx)
        if not self.fine(st):
            self.c.expect(r is False, "name-refuse", i, "%s reports success with %s" % (self.name, self.say(st)), self.e.path())
        elif self.out is None:
            if r is not False:
                self.c.expect(("done", "a0_file_open") in st[5], self.rule, i, "%s reports success without opening a file" % self.name, self.e.path())
        else:
            self.c.expect(r is True, self.rule, i, "%s refuses a usable topic" % self.name, self.e.path())
            w = [v for k, v in st[0] if k == ("arg", self.out)]
            self.path(st, i, w[0] if w else ZC)

    out = None


def env(c):
    """each protocol has a template and a variable of its own"""
    v0, pub = public(c.prog)
    names = sorted(n for n in pub if n.startswith("a0_env_"))
    v = c.prog.view(names, [])
    seen, pats = {}, {}
    for n in names:
        fn = c.use(v[n])
        g = G(fn, clobbers=no_clobber)
        cs = fn.calls("getenv")
        if not c.expect(len(cs) == 1, "name-env", fn, "%s does not ask for one variable" % n):
            continue
        var = string_at(v, g.val(cs[0].ops[0]))
        c.expect(var == "A0_" + n[len("a0_env_"):].upper(), "name-env", cs[0], "%s reads the variable %s" % (n, var))
        c.expect(var not in seen, "name-env", cs[0], "%s and %s read the same variable" % (n, seen.get(var)))
        seen[var] = n
        got = mk("call", cs[0].id)
        got = next((t for t in nodes(g.ret()) if t.op == "call"), got)
        isnull = CMP("eq", 64, got, ZERO)
        set_, unset = (subst(g.ret(), {isnull: k}) for k in (ZERO, ONE))
        c.expect(set_ is got, "name-env", cs[0], "%s does not use the variable that is set" % n)
        if n == "a0_env_topic":
            continue
        d = string_at(v, unset)
        if not c.expect(d is not None, "name-env", cs[0], "%s has no fixed default" % n):
            continue
        if n == "a0_env_root":
            c.expect(d.startswith("/"), "name-env", cs[0], "the default root %s is not absolute" % d)
            continue
        if c.expect(d.count("{topic}") == 1, "name-env", cs[0], "the default of %s has no one place for the topic" % n):
            pats[n] = d.split("{topic}")
    for a in sorted(pats):
        for b in sorted(pats):
            if a < b:
                (p, s), (q, t) = pats[a], pats[b]
                both = (p.startswith(q) or q.startswith(p)) and (s.endswith(t) or t.endswith(s))
                c.expect(not both, "name-env", v[b], "a topic of %s and one of %s can have the same file" % (a, b))
    if len(pats) < 6:
        raise AnalysisBroken("fewer protocols than expected")


def c27(c):
    c.rule("name-resolve", "for an absolute name the path used is the name, for a relative one the root, a slash and the name, and it fits its buffer")
    c.rule("name-refuse", "null, empty or otherwise unusable names, and an unusable root, are refused before anything is made, opened or removed")
    c.rule("name-topic", "the path of a topic is the template with the topic put in its place")
    c.rule("name-env", "every setting reads its own variable, and the defaults of two protocols never give the same file")
    c.rule("name-tree", "removing a tree removes the entries an iterator over it reports, and then the tree, and reports each entry under the resolved path")
    c.rule("name-link", "directories are only entered after having been seen not to be symbolic links")
    env(c)
    v0, pub = public(c.prog)
    helpers = ["a0_env_root"]
    fns = {"a0_file_open": (Resolve, 0), "a0_file_remove": (Remove, 0), "a0_file_iter_init": (IterInit, 1), "a0_pathglob_init": (Glob, 1)}
    v = c.prog.view(sorted(fns) + ["a0_file_iter_next"], helpers)
    cap = path_size(v)
    for n, (cls, arg) in sorted(fns.items()):
        r = cls(c, c.use(v[n]), "name-resolve", arg, {("arg", 0): cap} if n == "a0_file_iter_init" else None)
        if n == "a0_file_open":
            r.needs = ("open",)
        r.run()
    IterNext(c, c.use(v["a0_file_iter_next"]), "name-tree", [], {("arg", 0): cap}).run()
    keep = [n for n in pub if n not in ("a0_topic_path", "a0_topic_open", "a0_abspath")]
    v = c.prog.view(["a0_file_remove_all", "a0_topic_path", "a0_topic_open"], keep + ["a0_file_remove_all"])
    RemoveAll(c, c.use(v["a0_file_remove_all"]), "name-tree", [(("arg", 0), ("rel",))]).run()
    t = Topic(c, c.use(v["a0_topic_open"]), "name-topic", 0, 1)
    t.run()
    t = Topic(c, c.use(v["a0_topic_path"]), "name-topic", 0, 1)
    t.out = 2
    t.run()


def path_size(v):
    """bytes an iterator has for the path of an entry"""
    for name, off, size, ty in v.structs["a0_file_iter_s"]["members"]:
        if name == "_path":
            return size
    raise AnalysisBroken("the iterator has no path")
