"""Backing files: C21 (creation, mapping) and the part of C22 that concerns opening by mode."""
from rules.common import *
from rules.own import Own, Ctor, may_fail, local
from rules.writers import public, no_clobber

ENOENT, EEXIST = 2, 17
ACCMODE, O_RDONLY, O_RDWR, O_CREAT, O_TRUNC = 3, 0, 2, 0o100, 0o1000
MAP_SHARED, MAP_PRIVATE, PROT_READ, PROT_WRITE = 1, 2, 1, 2
SHARED, EXCLUSIVE, READONLY = 0, 1, 2
# struct layouts: file (path, fd, stat, arena data, arena size, arena mode), stat (size), options (size, mode, dir_mode, arena mode)
FD, DATA, SIZE, MODE = 8, 160, 168, 176
ST_SIZE = 48
O_SIZE, O_MODE, O_DIRMODE, O_ARENA = 0, 8, 12, 16
VISIBLE = ("link", "linkat", "rename", "renameat", "renameat2", "symlink", "symlinkat", "creat", "mknod", "openat")
FATAL = ("fchmod", "ftruncate", "fstat", "mkstemp", "mmap")


def given(e, opts):
    """the value for a caller that gives options; calls do not change them"""
    isnull = CMP("eq", 64, opts, ZERO)
    m = {isnull: ZERO}
    for t in nodes(e):
        if t.op == "clob":
            m[t] = mk("ld", t.a[1], t.a[2])
    return subst(e, m)


def option(e, opts, off, size):
    """is e the caller's option at off"""
    e = given(e, opts)
    while e.op in ("trunc", "zext", "sext"):
        e = e.a[-1]
    return e.op in ("ld", "mem") and e.a[0] is ADD(opts, C(off)) and e.a[1] >= size


class Open(Ctor):
    """the file-opening function; x is a set of facts"""

    def initial(self):
        return ((), frozenset(), frozenset(), frozenset())

    def setup(self, obj, opts):
        self.obj, self.opts = obj, opts

    def need(self, cond, i, msg):
        self.c.expect(cond, self.rule, i, "%s: %s" % (self.name, msg), self.e.path())

    def drop(self, x, h):
        return frozenset(f for f in x if h not in f)

    def fact(self, x, *k):
        return any(f[:len(k)] == k for f in x)

    def event(self, st, i, ctx):
        st = Ctor.event(self, st, i, ctx)
        if i.op != "call":
            return st
        held, cells, lds, x = st
        n = i.callee or ""
        arg = lambda k: self.what(st, ctx, i.ops[k])
        if n in ("open", "mkstemp", "link", "mmap", "linkat"):
            for f in x:
                if f[0] == "fatal":
                    self.need(False, i, "goes on to %s after %s failed" % (n, f[1]))
        if n == "strlen":
            return Assume(st, (is_zero(self.fn, i), False))  # no path or directory name is empty
        if n == "open":
            x = frozenset(f for f in x if f[0] != "last")
        if n in ("stat", "lstat", "mkdir"):
            x = x - {("last", "mkdir", EEXIST)}
        if n == "mkstemp":
            self.need(("last", "open", ENOENT) in x, i, "makes a new file although the existing one could not be ruled out")
        if n == "unlink":
            t = [f for f in x if f[0] == "tmp" and f[2] == arg(0)]
            self.need(bool(t), i, "removes something other than the temporary file it made")
            x = frozenset(f for f in x if f not in t)
        if n in ("fchmod", "ftruncate", "fstat"):
            self.need(arg(0) is not None and arg(0) in held, i, "%s of something that is not the open file" % n)
        if n == "ftruncate":
            h = arg(0)
            cells = frozenset(k for k in cells if k[1] != ("size", h))
            self.need(not self.fact(x, "named", h) and not self.fact(x, "opened", h), i, "resizes a file others can already see")
        if n in VISIBLE:
            self.publish(st, i, ctx, x)
        if n == "mmap":
            self.mapping(st, i, ctx, x)
        return (held, cells, lds, x)

    def publish(self, st, i, ctx, x):
        n = i.callee
        k = {"link": (0, 1), "linkat": (1, 3), "renameat2": (1, 3)}.get(n)
        if k is None or n == "renameat2" and not self.noreplace(i):
            return self.need(False, i, "%s may replace or expose a file another creator is using" % n)
        src, dst = (self.what(st, ctx, i.ops[j]) for j in k)
        t = [f for f in x if f[0] == "tmp" and f[2] == src]
        self.need(bool(t), i, "the file given its final name is not the temporary file")
        for f in t:
            for a, b in (("mode", "permissions"), ("full", "size")):
                self.need(self.fact(x, a, f[1]), i, "the file gets its final name before it has its %s" % b)
        self.need(dst is not None and dst[1] == "out", i, "the new file is not given the path that was asked for")

    def noreplace(self, i):
        f = self.g.val(i.ops[4])
        return f.op == "c" and f.a[0] & 1

    def mapping(self, st, i, ctx, x):
        fd = self.what(st, ctx, i.ops[4])
        size = self.what(st, ctx, i.ops[1])
        self.need(fd is not None and fd in st[0], i, "maps something that is not the open file")
        whole = size == ("size", fd) or option(self.g.val(i.ops[1]), self.opts, O_SIZE, 8) and self.fact(x, "full", fd)
        self.need(whole, i, "the mapping does not have the size the file has")
        off = self.g.val(i.ops[5])
        self.need(off is ZERO, i, "the mapping does not start at the beginning of the file")

    def ok(self, st, i, h=None):
        held, cells, lds, x = st
        n = i.callee
        what = lambda k: self.what((held, cells, lds, x), self.ctx, i.ops[k])
        if n in ("open", "mkstemp"):
            x = self.drop(x, h)
            cells = frozenset(k for k in cells if k[1] != ("size", h))
        if n == "open":
            x = x | {("opened", h)}
        if n == "mkstemp":
            x = x | {("tmp", h, what(0))}
        if n == "fchmod" and option(self.g.val(i.ops[1]), self.opts, O_MODE, 4):
            x = x | {("mode", what(0))}
        if n == "ftruncate" and option(self.g.val(i.ops[1]), self.opts, O_SIZE, 8):
            x = x | {("full", what(0))}
        if n == "fstat":
            a = ADD(self.g.val(i.ops[1]), C(ST_SIZE))
            cells = frozenset(k for k in cells if k[0] is not a) | {(a, ("size", what(0)))}
        if n in ("link", "linkat", "renameat2"):
            src = what(0 if n == "link" else 1)
            for f in [f for f in x if f[0] == "tmp" and f[2] == src]:
                x = x | {("named", f[1])}
                if n == "renameat2":
                    x = x - {f}
        if n == "mmap":
            x = self.drop(x, h) | {("maps", h, what(4))}
        return (held, cells, lds, x)

    def failed(self, st, i, code):
        held, cells, lds, x = Own.failed(self, st, i, code)
        n = i.callee
        x = frozenset(f for f in x if f[0] != "last") | {("last", n, code)}
        if n in FATAL or n == "open" and code != ENOENT or n in ("link", "linkat", "renameat2", "mkdir") and code != EEXIST:
            x = x | {("fatal", n)}
        return (held, cells, lds, x)

    def release(self, st, i, h):
        st = Ctor.release(self, st, i, h)
        if h[0] in ("fd", "map"):
            return st[:3] + (frozenset(f for f in st[3] if h not in f or f[0] == "tmp"),)
        return st

    def final(self, st, i, ctx):
        held, cells, lds, x = st
        nz = ctx.nonzero(i.ops[0])
        for f in x:
            if f[0] == "tmp":
                self.need(False, i, "returns with its temporary file still there")
            if f[0] == "fatal":
                self.need(nz is True, i, "reports success although %s failed" % f[1])
            if f[0] == "last" and nz is True:
                self.need(f[2] != EEXIST, i, "fails because another creator was faster (%s)" % f[1])
                self.need((f[1], f[2]) != ("open", ENOENT), i, "fails because the file does not exist instead of creating it")
        if nz is True:
            for h in held:
                self.need(False, i, "fails without releasing %s" % self.say(h))
            return
        at = lambda off: next((k[1] for k in cells if k[0] is ADD(self.obj, C(off))), None)
        m, fd, size = at(DATA), at(FD), at(SIZE)
        self.need(m in held and fd in held, i, "succeeds without the file open and mapped")
        self.need(("maps", m, fd) in x, i, "the mapping is not of the file that was opened")
        self.need(self.fact(x, "named", fd) or self.fact(x, "opened", fd), i, "succeeds with a file that is not under the path asked for")
        self.need(size == ("size", fd) or self.fact(x, "full", fd) and size is None, i, "the arena does not have the size of the file")


def opener(c):
    keep = public(c.prog)[1]
    v = c.prog.view(keep, keep)
    sites = {n for n in keep for i in v[n].allcalls() if i.callee == "mmap"}
    if sites != {"a0_file_open"}:
        raise AnalysisBroken("files are mapped in " + ", ".join(sorted(sites)))
    return keep, v, c.use(v["a0_file_open"])


def creation(c):
    """C21"""
    c.rule("file-create", "a new file gets its name by a call that cannot replace another, after its permissions and size; losing the race means using the other file")
    c.rule("file-dirs", "parent directories are created first, with the directory permissions asked for")
    keep, v, fn = opener(c)
    k = Open(c, fn, "file-create", keep, may_fail(c.prog, keep), codes=True)
    k.setup(mk("arg", 2), mk("arg", 1))
    k.run()
    if not any(i.callee == "open" for i in fn.allcalls()):
        raise AnalysisBroken("no call of open in " + fn.name)
    g = k.g
    dirs = [i for i in fn.order if i.op == "call" and i.callee in ("mkdir", "mkdirat")]
    opens = [i for i in fn.order if i.op == "call" and i.callee in ("open", "mkstemp")]
    c.expect(bool(dirs), "file-dirs", fn, "%s does not create parent directories" % fn.name)
    for i in dirs:
        c.expect(option(g.val(i.ops[1]), k.opts, O_DIRMODE, 4), "file-dirs", i, "a parent directory is not created with the permissions asked for")
        c.expect(all(o.block in fn.reach()[i.block] for o in opens if o.callee == "mkstemp"), "file-dirs", i, "parent directories are created after the file")
    for i in opens:
        if i.callee == "open":
            e = given(g.val(i.ops[1]), k.opts)
            for m in modes(e, k.opts):
                c.expect(not m[1] & (O_CREAT | O_TRUNC), "file-create", i, "opening creates or truncates the file under its final name")


def modes(e, opts):
    """[(arena mode, value)] of a value that depends on the arena mode asked for"""
    out = []
    e = given(e, opts)
    ls = [t for t in leaves(e)]
    for t in ls:
        if not option(t, opts, O_ARENA, 4):
            raise AnalysisBroken("flags depend on " + show(t))
    for m in (SHARED, EXCLUSIVE, READONLY):
        x = subst(e, {t: C(m) for t in ls})
        if x.op != "c":
            raise AnalysisBroken("flags are not a constant for each mode: " + show(x))
        out.append((m, x.a[0]))
    return out


def file_modes(c):
    """C22"""
    c.rule("file-mode", "a read-only file is opened for reading only and mapped so that nothing reaches it; any other is mapped shared and writable")
    keep, v, fn = opener(c)
    g = G(fn, clobbers=no_clobber)
    opts, obj = mk("arg", 1), mk("arg", 2)
    n = collections.Counter()
    for i in fn.order:
        if i.op == "call" and i.callee == "open":
            n["open"] += 1
            for m, x in modes(g.val(i.ops[1]), opts):
                want = O_RDONLY if m == READONLY else O_RDWR
                c.expect(x & ACCMODE == want, "file-mode", i, "a file of arena mode %d is opened with flags %#x" % (m, x))
        if i.op == "call" and i.callee == "mmap":
            n["mmap"] += 1
            prot = dict(modes(g.val(i.ops[2]), opts))
            for m, x in modes(g.val(i.ops[3]), opts):
                if m == READONLY:
                    fine = x & 3 == MAP_PRIVATE or x & 3 == MAP_SHARED and not prot[m] & PROT_WRITE
                else:
                    fine = x & 3 == MAP_SHARED and prot[m] & (PROT_READ | PROT_WRITE) == PROT_READ | PROT_WRITE
                c.expect(fine, "file-mode", i, "a file of arena mode %d is mapped with protection %#x and flags %#x" % (m, prot[m], x))
        if i.op == "store" and g.addr_of(i) is ADD(obj, C(MODE)):
            n["mode"] += 1
            c.expect(option(g.val(i.ops[0]), opts, O_ARENA, 4), "file-mode", i, "the arena does not get the mode that was asked for")
    if not n["open"] or not n["mmap"]:
        raise AnalysisBroken("no open or mmap in " + fn.name)
    c.expect(n["mode"] > 0, "file-mode", fn, "the arena never gets the mode that was asked for")
