"""Who owns what: C20 (constructors and destructors), and the typestate other rules about resources are built on.

Every function is explored with each call that can fail both succeeding and failing. What a successful
call acquired is held until it is released; handles are followed through memory cells.
"""
from rules.common import *
from rules.writers import public, no_clobber, all_ids
from engine.ir import mk_cmp as icmp

# calls that return a handle: kind, value that means failure (None: taken not to fail)
RET = {"open": ("fd", -1), "mkstemp": ("fd", -1), "eventfd": ("fd", -1), "epoll_create1": ("fd", -1), "epoll_create": ("fd", -1),
       "inotify_init1": ("fd", -1), "inotify_init": ("fd", -1), "openat": ("fd", -1), "dup": ("fd", -1), "mmap": ("map", -1), "opendir": ("dir", 0),
       "fopen": ("stream", 0), "open_memstream": ("stream", 0), "malloc": ("heap", None), "calloc": ("heap", None), "strdup": ("heap", None),
       "strndup": ("heap", None)}
FREE = {"close": "fd", "munmap": "map", "closedir": "dir", "fclose": "stream", "free": "heap", "realloc": "heap"}
# calls that make an object in place: argument, kind
OBJ = {"a0_file_open": (2, "a0_file"), "a0_topic_open": (3, "a0_file"), "a0_writer_wrap": (2, "a0_writer"), "pthread_mutex_init": (0, "mutex")}
# calls that hand a new object out through a pointer
OUT = {"a0_abspath": (1, "heap"), "a0_topic_path": (2, "heap")}
THREADS = ("a0_reader", "a0_reader_zc", "thread")
# calls that fail with -1 and set errno
SYS = ("fchmod", "ftruncate", "fstat", "link", "linkat", "unlink", "mkdir", "stat", "lstat", "epoll_ctl", "remove", "rename", "renameat2", "rmdir")
CODES = (2, 17, 0)  # ENOENT, EEXIST, anything else
ERRNO = {"open": (2, 0), "link": CODES, "linkat": CODES, "renameat2": CODES, "mkdir": CODES}


def good(v):
    """conditions that hold of a descriptor or of a result that is not -1"""
    return [(icmp("eq", v, ("c", -1)), False), (icmp("slt", v, ("c", 0)), False), (icmp("slt", ("c", -1), v), True)]


def minus(v):
    return [(c, not t) for c, t in good(v)]


def local(a):
    """does the address lie in a local variable"""
    return any(t.op == "alloca" for t in parts(a)[1])


def within(a, base, size):
    """(offset,) of address a in the size bytes at base"""
    if isinstance(a, (str, tuple)):
        return None
    n, t = parts(a)
    m, u = parts(base)
    return (n - m,) if t == u and 0 <= n - m < size else None


class Own:
    """explores one function; subclasses add what they look at"""

    def __init__(self, c, fn, rule, keep, fails, codes=False):
        self.c, self.fn, self.rule, self.keep, self.fails, self.codes = c, fn, rule, keep, fails, codes
        self.name = fn.name
        self.g = G(fn, clobbers=no_clobber)

    # -- tables
    def made(self, i):
        """(object address, kind) an in-place constructor call makes"""
        n = i.callee or ""
        if n in OBJ:
            k, kind = OBJ[n]
            return self.g.val(i.ops[k]), kind
        if n == "pthread_create":
            return self.g.val(i.ops[0]), "thread"
        if n.endswith("_init") and n[:-5] + "_close" in self.keep:
            return self.g.val(i.ops[0]), n[:-5]
        return None

    def unmade(self, i):
        n = i.callee or ""
        if n == "pthread_mutex_destroy":
            return self.g.val(i.ops[0]), "mutex"
        if n in ("pthread_join", "pthread_detach"):
            o = i.ops[0]
            j = self.fn.insts.get(o[1]) if o[0] == "i" else None
            return (self.g.addr_of(j) if j is not None and j.op == "load" else self.g.val(o)), "thread"
        if n.endswith("_close") and n in self.keep and i.ops:
            return self.g.val(i.ops[0]), n[:-6]
        return None

    # -- values
    def what(self, st, ctx, op):
        """handle an operand denotes here"""
        e = ctx.expr(op)
        for h in st[0]:
            if h[1] == "ret" and e == self.fn.expr(("i", h[2])):
                return h
        for k, x in st[2]:
            if e == self.fn.expr(("i", k)):
                return x
        for k, x in st[1]:
            if k == ("v", e):
                return x
        return None

    def initial(self):
        return ((), frozenset(), frozenset(), None)

    # -- hooks
    def event(self, st, i, ctx):
        return st

    def ok(self, st, i, h=None):
        """state after call i succeeded (and made h)"""
        return st

    def released(self, st, h, i):
        """called before h is taken out"""

    def final(self, st, i, ctx):
        pass

    def acquire(self, st, i, h, ok, bad, codes=()):
        held, cells, lds, x = st
        if h in held:
            self.c.bad(self.rule, i, "%s acquires %s again without releasing it" % (self.name, self.say(h)), self.e.path())
        out = [Assume(self.ok((tuple(k for k in held if k != h) + (h,), cells, lds, x), i, h), *ok)]
        if bad is not None:
            for code in codes or (None,):
                out.append(Assume(self.failed((held, cells, lds | {(i.id, ("failed", RET[i.callee][1]))} if i.callee in RET else lds, x), i, code), *bad))
        return out

    def failed(self, st, i, code):
        held, cells, lds, x = st
        cells = frozenset(k for k in cells if k[0] != "errno")
        if code is not None:
            cells = cells | {("errno", ("errno", code))}
        return (held, cells, lds, x)

    def release(self, st, i, h):
        held, cells, lds, x = st
        self.c.expect(h in held, self.rule, i, "%s releases %s, which it does not hold" % (self.name, self.say(h)), self.e.path())
        if h in held:
            self.released(st, h, i)
        return (tuple(k for k in held if k != h), cells, lds, x)

    def say(self, h):
        if h[1] in ("ret", "out"):
            i = self.fn.insts[h[2]]
            return "what %s returned at line %s" % (i.callee, i.line()[1])
        return {"thread": "its thread", "mutex": "its mutex"}.get(h[0], h[0].replace("a0_", "") + " object")

    def step(self, st, i, ctx):
        held, cells, lds, x = st
        g, fn = self.g, self.fn
        self.ctx = ctx
        if i.op == "store":
            a = g.addr_of(i)
            h = self.what(st, ctx, i.ops[0])
            cells = frozenset(k for k in cells if k[0] is not a)
            if h is not None:
                cells = cells | {(a, h)}
            return (held, cells, lds, x)
        if i.op == "load":
            a = g.val(i.ops[0])
            if a.op == "call" and fn.insts[a.a[0]].callee == "__errno_location":
                hs = [k[1] for k in cells if k[0] == "errno"]
            else:
                hs = [k[1] for k in cells if k[0] is a]
            lds = frozenset(k for k in lds if k[0] != i.id)
            if not hs:
                return (held, cells, lds, x)
            st = (held, cells, lds | {(i.id, hs[0])}, x)
            v = ctx.expr(("i", i.id))
            if hs[0][0] == "errno":
                code = hs[0][1]
                return Assume(st, (icmp("eq", v, ("c", 0)), False), *[(icmp("eq", v, ("c", k)), k == code) for k in CODES if k])
            if hs[0][0] == "failed":
                return Assume(st, *(minus(v) if hs[0][1] else [(icmp("eq", v, ("c", 0)), True)]))
            if hs[0][0] in ("heap", "map", "dir", "stream") and hs[0] in held:
                return Assume(st, (icmp("eq", v, ("c", 0)), False), (icmp("eq", v, ("c", -1)), False))
            if hs[0][0] == "fd" and hs[0] in held:
                return Assume(st, *good(v))
            return st
        if i.op == "call" and (i.callee or "").startswith("llvm.memcpy"):
            d, s, size = (g.val(o) for o in i.ops[:3])
            if size.op == "c":
                cells = frozenset(k for k in cells if not within(k[0], d, size.a[0])) | {
                    (ADD(d, C(within(k[0], s, size.a[0])[0])), k[1]) for k in cells if within(k[0], s, size.a[0])}
            return (held, cells, lds, x)
        if i.op != "call" or (i.callee or "").startswith("llvm."):
            return st
        n = i.callee or ""
        z = is_zero(fn, i)
        v = fn.expr(("i", i.id))
        lds = frozenset(k for k in lds if k[0] != i.id)
        st = (held, cells, lds, x)
        if n in RET:
            kind, bad = RET[n]
            h = (kind, "ret", i.id)
            if bad is None:
                return self.acquire(st, i, h, [(z, False)], None)
            if bad == -1:
                return self.acquire(st, i, h, good(v)[:1] + [(z, False)] if kind == "map" else good(v), minus(v), ERRNO.get(n, (0,)) if self.codes else ())
            return self.acquire(st, i, h, [(z, False)], [(z, True)])
        if n in FREE:
            h = self.what(st, ctx, i.ops[0])
            if h is not None and h[0] == FREE[n]:
                s2 = self.release(st, i, h)
                return Assume(s2, (z, True)) if n == "munmap" else s2  # of what was mapped, cannot fail
            return st
        if n in OUT:
            k, kind = OUT[n]
            a = g.val(i.ops[k])
            h = (kind, "out", i.id)
            s2 = (held + (h,), frozenset(k for k in cells if k[0] is not a) | {(a, h)}, lds, x)
            return [Assume(s2, (z, True)), Assume(self.failed(st, i, None), (z, False))]
        m = self.made(i)
        if m is not None:
            h = (m[1], "obj", m[0])
            if n == "pthread_mutex_init" or n not in self.fails and n != "pthread_create":
                return self.acquire(st, i, h, [(z, True)], None)
            return self.acquire(st, i, h, [(z, True)], [(z, False)])
        m = self.unmade(i)
        if m is not None:
            h = (m[1], "obj", m[0])
            if h in held:
                s2 = self.release(st, i, h)
                if h[0] in THREADS and n in self.fails:
                    return [Assume(s2, (z, True)), Assume(st, (z, False))]
                return s2
            return self.unheld(st, i, h)
        if n in SYS:
            return [Assume(self.ok(st, i), (z, True), *good(v))] + [Assume(self.failed(st, i, k), (z, False), *minus(v)) for k in (ERRNO.get(n, (0,)) if self.codes else (None,))]
        if n in self.fails:
            return [Assume(st, (z, True)), Assume(self.failed(st, i, None), (z, False))]
        return st

    def unheld(self, st, i, h):
        self.c.bad(self.rule, i, "%s releases %s, which it does not hold" % (self.name, self.say(h)), self.e.path())
        return st

    def run(self):
        def on_inst(st, i, ctx):
            s = self.event(st, i, ctx)
            if s is None:
                return None
            if not isinstance(s, (Assume, list)):
                return self.step(s, i, ctx)
            out = []
            for s in s if isinstance(s, list) else [s]:
                r = self.step(s.state, i, ctx)
                out += [Assume(t.state, *(s.conds + t.conds)) if isinstance(t, Assume) else Assume(t, *s.conds) for t in (r if isinstance(r, list) else [r])]
            return out

        def on_ret(st, i, ctx):
            self.final(st, i, ctx)
        def used(i):
            return i.ops if i.op in ("store", "call") else ()

        def on_edge(st, facts, ctx, src, dst):
            held, cells, lds, x = st
            t = self.fn.blocks[src][-1]
            if t.op == "switch" and dst == t.succ[0] and len(t.succ) > 3 and sorted(t.raw["cases"]) == list(range(len(t.succ) - 1)):
                return None  # every enumerator has its case
            return (held, cells, frozenset(k for k in lds if k[0] in live[dst]), x)
        live = self.fn.live_ids(used)
        self.e = Explorer(self.fn, on_inst=on_inst, on_ret=on_ret, on_edge=on_edge, track=live, drop=self.fn.counters())
        run(self.c, self.e, self.initial())


class Ctor(Own):
    """acquired is kept in the object on success and released on failure"""

    def __init__(self, *a, **k):
        Own.__init__(self, *a, **k)
        self.fns = {}  # where the object keeps functions
        self.owned = {}  # kind of outcome -> ordered handles, as the object's user sees them
        self.allheld = None

    def event(self, st, i, ctx):
        if i.op == "store" and i.ops[0][0] == "f":
            self.fns.setdefault(self.g.addr_of(i), set()).add(i.ops[0][1])
        if i.op == "call" and (i.callee or "").startswith("llvm.memcpy"):
            d, s, size = (self.g.val(o) for o in i.ops[:3])
            for a, f in list(self.fns.items()):
                if size.op == "c" and within(a, s, size.a[0]):
                    self.fns.setdefault(ADD(d, C(within(a, s, size.a[0])[0])), set()).update(f)
        return st

    def released(self, st, h, i):
        later = st[0][st[0].index(h) + 1:]
        for t in later:
            if t[0] in THREADS:
                self.c.bad(self.rule, i, "%s releases %s while %s still runs" % (self.name, self.say(h), self.say(t)), self.e.path())

    def unheld(self, st, i, h):
        if self.name == h[0] + "_init" and h[2] is mk("arg", 0):
            # the constructor has its own destructor clean up
            return (tuple(k for k in st[0] if self.where(st, k) is None),) + st[1:]
        return Own.unheld(self, st, i, h)

    def where(self, st, h):
        """address the object keeps the handle at"""
        if h[1] == "obj":
            return None if local(h[2]) else h[2]
        for a, x in st[1]:
            if x == h and not isinstance(a, (str, tuple)) and not local(a):
                return a
        return None

    def final(self, st, i, ctx):
        c = self.c
        nz = ctx.nonzero(i.ops[0]) if i.ops else False
        for h in st[0]:
            if nz is True:
                c.bad(self.rule, i, "%s fails without releasing %s" % (self.name, self.say(h)), self.e.path())
            elif self.where(st, h) is None:
                c.bad(self.rule, i, "%s loses %s" % (self.name, self.say(h)), self.e.path())
        if nz is not True:
            o = tuple((h[0], self.where(st, h)) for h in st[0])
            if None not in [w for k, w in o]:
                self.owned[frozenset(o)] = o
        c.ok(self.rule)


class Dtor(Own):
    """everything the constructor left in the object is released once, threads first"""

    def __init__(self, c, fn, rule, keep, fails, owned, fns={}, **k):
        Own.__init__(self, c, fn, rule, keep, fails, **k)
        self.owned, self.fns, self.closers = owned, fns, {}

    def event(self, st, i, ctx):
        g = self.g
        if i.op == "load" and g.val(i.ops[0]) in self.fns:
            return Assume(st, (icmp("eq", ctx.expr(("i", i.id)), ("c", 0)), False))
        if is_indirect(i) and i.ops:
            j = self.fn.insts.get(i.fptr[1]) if i.fptr[0] == "i" else None
            f = self.fns.get(g.addr_of(j)) if j is not None and j.op == "load" else None
            h = self.what(st, ctx, i.ops[0])
            if h in st[0] and f:
                for n in f:
                    self.closer(n, h)
                self.released(st, h, i)
                return (tuple(k for k in st[0] if k != h),) + st[1:]
        return st

    def closer(self, n, h):
        """the function the object keeps for releasing what it is given releases it"""
        if (n, h) not in self.closers:
            self.closers[n, h] = d = Dtor(self.c, self.c.use(self.c.prog.view(self.keep + [n], self.keep + [n])[n]), self.rule, self.keep, self.fails, [(h[0], None)])
            d.touch = self.touch
            d.run()

    def initial(self):
        held, cells = [], set()
        for kind, a in self.owned:
            if kind in ("fd", "map", "dir", "stream", "heap"):
                h = (kind, "cell", a)
                cells.add((("v", self.fn.expr(("a", 0))) if a is None else a, h))
            else:
                h = (kind, "obj", a)
            held.append(h)
        return (tuple(held), frozenset(cells), frozenset(), None)

    def say(self, h):
        if h[1] == "cell":
            return {"fd": "a descriptor", "map": "the mapping", "heap": "memory"}.get(h[0], h[0])
        return Own.say(self, h)

    def released(self, st, h, i):
        for t in st[0]:
            if t[0] in THREADS and t != h:
                self.c.bad(self.rule, i, "%s releases %s while %s still runs" % (self.name, self.say(h), self.say(t)), self.e.path())
        if h[0] == "a0_file":
            for t in st[0]:
                if t[0] in self.touch:
                    self.c.bad(self.rule, i, "%s unmaps the file before it closes %s" % (self.name, self.say(t)), self.e.path())

    def final(self, st, i, ctx):
        c = self.c
        nz = ctx.nonzero(i.ops[0]) if i.ops else False
        n = len(st[0])
        if n and (n < len(self.owned) or nz is not True):
            for h in st[0]:
                c.bad(self.rule, i, "%s does not release %s" % (self.name, self.say(h)), self.e.path())
        c.ok(self.rule)


class Plain(Own):
    """what a function acquires for itself it releases; the rest it hands on"""

    def final(self, st, i, ctx):
        for h in st[0]:
            if self.where(st, h) is None and not self.returned(st, h, i, ctx):
                self.c.bad(self.rule, i, "%s never releases %s" % (self.name, self.say(h)), self.e.path())
        self.c.ok(self.rule)

    where = Ctor.where

    def returned(self, st, h, i, ctx):
        return bool(i.ops) and self.what(st, ctx, i.ops[0]) == h

    def unheld(self, st, i, h):
        return st


def may_fail(prog, keep):
    """public functions that can return something other than success"""
    out = set()
    v = prog.view(keep, keep)
    for n in keep:
        fn = v[n]
        r = [i for i in fn.order if i.op == "ret" and i.ops]
        if not r:
            continue
        if all(ctx_zero(fn, i.ops[0]) for i in r):
            continue
        out.add(n)
    return out


def ctx_zero(fn, op, seen=()):
    if op[0] == "c":
        return op[1] == 0
    if op[0] == "i" and op[1] not in seen:
        i = fn.insts[op[1]]
        if i.op == "phi":
            return all(ctx_zero(fn, v, seen + (op[1],)) for v, b in i.inc)
    return op[0] == "i" and op[1] in seen


def constructors(keep):
    """[(constructor, destructor)]"""
    out = []
    for n in keep:
        if n.endswith("_init") and n[:-5] + "_close" in keep:
            out.append((n, n[:-5] + "_close"))
        if n.endswith("_open") and n[:-5] + "_close" in keep:
            out.append((n, n[:-5] + "_close"))
    return out


def touching(prog, keep):
    """kinds whose destructor uses the transport of the arena they were made on"""
    v = prog.view(keep, keep)
    calls = {n: {i.callee for i in v[n].allcalls()} for n in keep if n.endswith("_close")}
    hit = {n for n, cs in calls.items() if any((x or "").startswith("a0_transport_") for x in cs)}
    while True:
        more = {n for n, cs in calls.items() if cs & hit} - hit
        if not more:
            return {n[:-6] for n in hit} | {"a0_deadman_mtx"}
        hit |= more


def c20(c):
    c.rule("own-init", "a constructor that fails has released everything it acquired; one that succeeds keeps everything in the object")
    c.rule("own-close", "a destructor releases everything its constructor acquired, once, and stops threads first")
    c.rule("own-local", "what a function acquires for its own use is released on every path")
    keep = public(c.prog)[1]
    v = c.prog.view(keep, keep)
    fails = may_fail(c.prog, keep)
    touch = touching(c.prog, keep)
    pairs = constructors(keep)
    if len(pairs) < 20:
        raise AnalysisBroken("only %d constructors were recognised" % len(pairs))
    done = set()
    for init, close in pairs:
        fn = c.use(v[init])
        k = Ctor(c, fn, "own-init", keep, fails, codes=init == "a0_file_open")
        k.run()
        done |= {init, close}
        d = c.use(v[close])
        # the object is another argument number in the destructor
        for o in k.owned.values():
            args = {t.a[0] for kind, a in o for t in parts(a)[1] if t.op == "arg"}
            if len(args) > 1:
                raise AnalysisBroken("%s keeps things in several objects" % init)
            o = tuple((kind, subst(a, {mk("arg", t): mk("arg", 0) for t in args})) for kind, a in o)
            m = {mk("arg", t): mk("arg", 0) for t in args}
            x = Dtor(c, d, "own-close", keep, fails, o, fns={subst(a, m): f for a, f in k.fns.items()})
            x.touch = touch
            x.run()
    for n in keep:
        if n in done:
            continue
        fn = v[n]
        x = Plain(c, fn, "own-local", keep, fails)
        if not any(i.op == "call" and ((i.callee or "") in RET or x.made(i)) for i in fn.allcalls()):
            continue
        c.use(fn)
        x.run()
