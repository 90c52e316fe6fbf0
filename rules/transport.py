"""Rules about the transport: one shared-memory ring with two state pages."""
from rules.common import *

KEEP = ["a0_mtx_lock", "a0_mtx_unlock", "a0_cnd_wait", "a0_cnd_timedwait", "a0_cnd_broadcast", "a0_cnd_signal",
        "a0_time_mono_now", "a0_mtx_trylock", "a0_mtx_timedlock"]
SHARED = ("a0_transport_hdr_s", "a0_transport_state_s", "a0_transport_version_s", "a0_transport_frame_hdr_s")
OTHER_THREADS = ("a0_transport_s._shutdown", "a0_transport_s._wait_cnt")
STATE = ("seq_low", "seq_high", "off_head", "off_tail", "high_water_mark")
LOCKING = ("a0_mtx_lock", "a0_cnd_wait", "a0_cnd_timedwait", "a0_mtx_trylock", "a0_mtx_timedlock")


def clobbers(callee, field, addr):
    if callee in LOCKING:
        return not field or field[-1].split(".")[0] in SHARED or field[-1] in OTHER_THREADS
    if callee == "a0_mtx_unlock":
        return False
    return not field


def api(prog):
    """the transport's public functions, from the current source"""
    v = prog.view(["a0_transport_lock"], KEEP)
    out = [n for n, st, f, ln, sn in v.defined.values()
           if f.endswith("src/transport.c") and not st and n.startswith("a0_transport_")]
    need = {"a0_transport_" + x for x in ("init", "lock", "unlock", "alloc", "commit", "clear", "empty", "iter_valid",
                                          "jump", "jump_head", "jump_tail", "has_next", "has_prev", "step_next",
                                          "step_prev", "frame", "timedwait", "shutdown", "used_space", "resize",
                                          "alloc_evicts", "nonempty", "seq_low", "seq_high", "allocator")}
    miss = need - set(out)
    if miss:
        raise AnalysisBroken("transport functions vanished: %s" % sorted(miss))
    return sorted(out)


class TFn:
    """one transport function, value-numbered"""

    def __init__(self, c, name, view, fn=None):
        self.c = c
        self.v = view
        self.fn = fn or c.use(view[name])
        self.g = G(self.fn, clobbers=clobbers)
        o = view.offset
        self.name = name
        self.o_data = o("a0_transport_s._arena") + o("a0_arena_s.buf") + o("a0_buf_s.data")
        self.o_mode = o("a0_transport_s._arena") + o("a0_arena_s.mode")
        self.o_seq = o("a0_transport_s._seq")
        self.o_off = o("a0_transport_s._off")
        self.o_idx = o("a0_transport_hdr_s.committed_page_idx")
        self.o_pages = o("a0_transport_hdr_s.state_pages")
        self.o_arena = o("a0_transport_hdr_s.arena_size")
        self.o_cnd = o("a0_transport_hdr_s.cnd")
        self.o_mtx = o("a0_transport_hdr_s.mtx")
        self.psz = view.sizeof("a0_transport_state_s")
        self.fsz = view.sizeof("a0_transport_frame_hdr_s")
        self.hsz = view.sizeof("a0_transport_hdr_s")
        T = None
        for k in range(len(self.fn.params)):
            b, t, full, off = self.fn.param_type(k)
            if t and t[0] == "ptr" and t[1] == ["struct", "a0_transport_s"]:
                T = mk("arg", k)
                break
            if t and t[0] == "ptr" and t[1] == ["struct", "a0_transport_locked_s"]:
                T = mk("ld", ADD(mk("arg", k), C(o("a0_transport_locked_s.transport"))), 8)
                break
        if T is None:
            raise AnalysisBroken("%s takes no transport" % name)
        self.T = T
        self.m = None
        self.hdr = mk("ld", ADD(self.T, C(self.o_data)), 8)
        if name == "a0_transport_init":
            # the arena is a parameter there
            k = self.fn.arg(1)
            self.hdr = mk("ld", mk("arg", k), 8)

    # points are (block, index)
    def entry(self):
        return (0, 0)

    def mem(self, addr, size, at, field=None):
        x = self.g.mem(addr, size, at[0], at[1], (field,) if field else None)
        return subst(x, self.m) if self.m else x

    def under(self, conds):
        """a copy of this function's view in which the given nodes have known values"""
        import copy
        t = copy.copy(self)
        t.m = dict(self.m or {})
        t.m.update(conds)
        return t

    def success(self):
        """the function restricted to the paths on which it reports success"""
        if not hasattr(self, "_succ"):
            f = slice_fn(self.fn, lambda z: z is not True)
            if f is None:
                raise AnalysisBroken("%s never succeeds" % self.name)
            self._succ = TFn(self.c, self.name, self.v, f)
        return self._succ

    def ok_cond(self):
        """the condition under which it reports success"""
        r = ZERO
        for at, v, gd in self.rets():
            r = OR(r, AND(gd, EQ(v, ZERO)))
        return r

    def failing(self):
        """the blocks that lie on a path to a reported failure"""
        f = slice_fn(self.fn, lambda z: z is not False)
        return set() if f is None else {b for b in range(len(f.blocks)) if f.blocks[b]}

    def idx(self, at):
        return self.mem(ADD(self.hdr, C(self.o_idx)), 1, at, "a0_transport_hdr_s.committed_page_idx")

    def working(self, at):
        return ADD(ADD(self.hdr, C(self.o_pages)), CMP("eq", 8, self.idx(at), ZERO), 1, self.psz)

    def committed(self, at):
        return ADD(ADD(self.hdr, C(self.o_pages)), self.idx(at), 1, self.psz)

    def st(self, page, f, at):
        return self.mem(ADD(page, C(self.v.offset("a0_transport_state_s." + f))), 8, at, "a0_transport_state_s." + f)

    def w(self, f, at):
        return self.st(self.working(at), f, at)

    def frame(self, addr, f, at):
        return self.mem(ADD(addr, C(self.v.offset("a0_transport_frame_hdr_s." + f))), 8, at,
                        "a0_transport_frame_hdr_s." + f)

    def cursor(self, f, at):
        return self.mem(ADD(self.T, C(getattr(self, "o" + f))), 8, at, "a0_transport_s." + f)

    def rets(self):
        return [((r.block, r.idx), self.g.val(r.ops[0]) if r.ops else ZERO, self.g.reach(r.block))
                for r in self.fn.rets()]

    def out(self, n, size, at):
        return self.g.mem(mk("arg", n), size, at[0], at[1])

    # events
    def flips(self):
        return [i for i in self.fn.order if i.op == "store" and i.fields and
                i.fields[-1] == "a0_transport_hdr_s.committed_page_idx"]

    def is_page_write(self, i):
        """(address node, length) if i writes to a state page"""
        if i.op == "store":
            if i.fields and i.fields[-1].split(".")[0] == "a0_transport_state_s":
                return self.g.addr_of(i), i.raw.get("sz", 8)
            a = self.g.addr_of(i)
            if self._in_pages(a):
                return a, i.raw.get("sz", 8)
        elif i.op in ("call", "invoke") and (i.callee or "").startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")):
            a = self.g.val(i.ops[0])
            n = self.g.val(i.ops[2])
            if self._in_pages(a) or (i.fields and i.fields[-1].split(".")[0] in ("a0_transport_state_s",)):
                return a, n.a[0] if n.op == "c" else None
        return None

    def _in_pages(self, a):
        d = ADD(a, self.hdr, 1, -1)
        c, t = parts(d)
        if all(gv.is_bool(k) or self.g._small(k) for k in t):
            vals = [v[0] for _, v in tabulate([d], lambda v: (0, 1))] if t else [c]
            return all(self.o_pages <= x < self.o_pages + 2 * self.psz for x in vals)
        return False

    def is_frame_write(self, i):
        if i.op == "store":
            to = i.ops[1]
        elif i.op in ("call", "invoke") and (i.callee or "").startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove", "memcpy", "memset", "memmove")):
            to = i.ops[0]
        else:
            return False
        if i.fields:
            return i.fields[-1].split(".")[0] == "a0_transport_frame_hdr_s"
        # untyped: somewhere in the arena, at an offset that is not fixed
        a = self.g.val(to)
        if self.hdr not in parts(a)[1]:
            return False
        _, t = parts(ADD(a, self.hdr, 1, -1))
        return self.hdr not in t and any(not gv.is_bool(k) and not self.g._small(k) for k in t)


class Family:
    """all transport functions of the tree, analysed once per run"""
    cache = {}

    def __init__(self, c):
        self.c = c
        self.names = api(c.prog)
        self.view = c.prog.view(self.names, KEEP)
        self.f = {}

    def __getitem__(self, short):
        n = short if short.startswith("a0_") else "a0_transport_" + short
        if n not in self.f:
            self.f[n] = TFn(self.c, n, self.view)
        return self.f[n]


def family(c):
    if not hasattr(c, "_fam"):
        c._fam = Family(c)
    return c._fam


# ------------------------------------------------------------------------------------------ domains

def dom01(v):
    return (0, 1)


def leaf_field(t, v):
    a = None
    if v.op == "ld":
        a = v.a[0]
    elif v.op == "lmem":
        a = v.a[1]
    elif v.op == "clob":
        a = v.a[1]
    if a is None:
        return None
    f = t.g.field(a)
    return f[-1] if f else None


def names(t):
    def n(v):
        f = leaf_field(t, v)
        if f:
            return f.split("_", 1)[1] if False else f.replace("a0_transport_", "")
        return show(v)
    return n


def seq_dom(t, extra=None):
    """small representatives for every quantity the list rules compare"""
    def dom(v):
        if extra and v in extra:
            return extra[v]
        f = leaf_field(t, v) or ""
        m = f.split(".")[-1]
        if m in ("seq_low", "seq_high", "seq", "_seq"):
            return (0, 1, 2, 3, 4)
        if m in ("off_head", "off_tail", "next_off", "prev_off", "_off", "off"):
            return (0, 144, 208)
        if m == "committed_page_idx":
            return (0, 1)
        if m == "high_water_mark":
            return (144, 200, 264)
        if m == "data_size":
            return (0, 16)
        if m == "arena_size":
            return (4096,)
        if m == "mode":
            return (0, 1, 2)
        if v.op == "arg":
            return (0, 16)
        if gv.is_bool(v):
            return (0, 1)
        return (0, 1, 2)
    return dom


def inv(sl, sh, oh=None, ot=None):
    """representation invariant between operations"""
    fresh = AND(EQ(sh, ZERO), LE(sl, ONE))
    live = AND(LE(ONE, sl), LE(sl, ADD(sh, ONE)), NOT(EQ(sh, ZERO)))
    r = OR(fresh, live)
    if oh is not None:
        e = OR(EQ(sh, ZERO), LT(sh, sl))
        r = AND(r, EQ(EQ(oh, ZERO), e), EQ(EQ(ot, ZERO), e), IMP(NOT(e), EQ(EQ(oh, ot), EQ(sl, sh))))
    return r


def empty(sl, sh):
    return OR(EQ(sh, ZERO), LT(sh, sl))


# ------------------------------------------------------------------------------------------ C01

def pages(c):
    """C01: state pages are changed only while not committed; the flip is the commit."""
    fam = family(c)
    c.rule("page-write", "a write to a state page goes to the page that is not committed at that instant")
    c.rule("flip", "the committed index is only ever replaced by its complement, one byte at a time")
    c.rule("flip-last", "nothing that belongs to a message being appended is written before its own commit in the same call")
    nw = nf = 0
    for n in fam.names:
        t = fam[n]
        if n == "a0_transport_init":
            continue
        for i in t.fn.order:
            pw = t.is_page_write(i)
            if pw:
                nw += 1
                a, ln = pw
                d = ADD(ADD(a, t.hdr, 1, -1), C(-t.o_pages))
                cur = t.idx((i.block, i.idx))
                bad = None
                try:
                    for row, v in tabulate([d, cur], dom01):
                        c.rows += 1
                        lo = v[0]
                        page = lo // t.psz
                        over = ln is None or lo % t.psz + ln > t.psz or not 0 <= page <= 1
                        if over or page == (1 if v[1] else 0):
                            bad = row
                except AnalysisBroken:
                    bad = "unknown"
                c.expect(bad is None, "page-write", i,
                         "%s can write to the committed state page: a crash here leaves a half-done change visible" % n,
                         path=path_to(t, i))
        for i in t.flips():
            nf += 1
            old = t.idx((i.block, i.idx))
            new = t.g.val(i.ops[0])
            bad = i.raw.get("sz", 8) != 1
            try:
                for row, v in tabulate([old, new], dom01):
                    if bool(v[0]) == bool(v[1]) or v[1] not in (0, 1):
                        bad = True
            except AnalysisBroken:
                bad = True
            c.expect(not bad, "flip", i, "%s stores a value other than the complement into the committed index" % n)
    if "page-write" not in c.count:
        raise AnalysisBroken("no write to a state page found")
    com = fam["commit"]
    c.expect(bool(com.flips()), "flip", com.fn, "a0_transport_commit never makes the working page the committed one")
    # an append must leave the commit to the caller
    al = fam["alloc"]
    fw = [i for i in al.fn.order if al.is_frame_write(i) or
          (i.op == "store" and i.fields and i.fields[-1] in ("a0_transport_state_s.seq_high", "a0_transport_state_s.off_tail")
           and al.g.val(i.ops[0]) is not ZERO)]
    if not fw:
        raise AnalysisBroken("a0_transport_alloc writes no frame")
    for i in fw:
        hit = [f for f in al.flips() if al.fn.can_reach(i, f)]
        c.expect(not hit, "flip-last", i,
                 "a0_transport_alloc commits after it has begun to write the new message: a crash exposes an unwritten message")


def path_to(t, i):
    return " <- ".join("%s:%d %s" % (x[0].replace("/repo/", ""), x[1], x[2]) for x in i.loc)


def evict_commit(c):
    """C01: frame memory is written only when no uncommitted eviction is pending."""
    fam = family(c)
    c.rule("evict-committed", "between dropping a message from the working page and writing into freed space lies a commit")
    for n in fam.names:
        t = fam[n]
        if not any(t.is_frame_write(i) for i in t.fn.order):
            continue

        def drops(i):
            """store that removes messages from the window (not the first-message initialisation)"""
            if i.op != "store" or not i.fields or i.fields[-1] not in ("a0_transport_state_s.seq_low", "a0_transport_state_s.off_head"):
                return False
            # value before is provably zero -> the window was empty
            old = t.g.before(i, t.g.addr_of(i), 8)
            gd = t.g.guard(i)
            return not implied_zero(gd, old)

        def on_inst(s, i, ctx):
            if drops(i):
                c.expect(s != "written", "evict-committed", i, "%s drops a message after it has begun to write into message space" % n, ex.path())
                return "dirty"
            if i in flips:
                return "clean" if s != "written" else s
            if s != "dirty" and t.is_frame_write(i):
                c.ok("evict-committed")
                return "written"
            if s == "dirty" and t.is_frame_write(i):
                c.bad("evict-committed", i, "%s writes into message space before the eviction of the old message is committed" % n,
                      path=ex.path())
            return s
        flips = set(t.flips())
        ex = Explorer(t.fn, on_inst=on_inst)
        run(c, ex, "clean")


def evict_steps(t):
    """(store, start, end): one step of dropping the oldest message, from a point where the state is whole to the
    next one (the commit, or the end of the loop body)"""
    out = []
    for i in t.fn.order:
        if i.op != "store" or not i.fields or i.fields[-1] != "a0_transport_state_s.seq_low":
            continue
        old = t.g.before(i, t.g.addr_of(i), 8)
        if implied_zero(t.g.guard(i), old):
            continue
        loops = [h for h, L in t.g.loop.items() if i.block in L]
        h = max(loops, key=lambda h: len(t.fn.dominators()[h])) if loops else None
        start = (h, 0) if loops else t.entry()
        ends = [f for f in t.flips() if (not loops or f.block in t.g.loop[h]) and t.fn.can_reach(i, f)]
        if ends:
            out += [(i, start, (f.block, f.idx)) for f in ends]
        elif loops:
            out += [(i, start, (b, len(t.fn.blocks[b]) - 1)) for b, x in t.g.back if x == h]
        else:
            out.append((i, start, None))
    return out


def commit_whole(c):
    """C01: every commit publishes a state in which window and list agree."""
    fam = family(c)
    c.rule("commit-whole", "each commit made inside an operation publishes a consistent window and list")
    for nm in ("alloc", "clear"):
        t = fam[nm]
        for f in t.flips():
            loops = [h for h, L in t.g.loop.items() if f.block in L]
            start = (max(loops, key=lambda h: len(t.fn.dominators()[h])), 0) if loops else t.entry()
            P = {x: t.w(x, start) for x in STATE}
            Q = {x: t.w(x, (f.block, f.idx)) for x in STATE}
            I = inv(P["seq_low"], P["seq_high"], P["off_head"], P["off_tail"])
            nxt = t.frame(ADD(t.hdr, P["off_head"]), "next_off", start)
            I = AND(I, NOT(EQ(nxt, ZERO)), EQ(EQ(nxt, P["off_tail"]), EQ(ADD(P["seq_low"], ONE), P["seq_high"])))
            if loops:
                I = AND(I, NOT(empty(P["seq_low"], P["seq_high"])))
            c.implies("commit-whole", f, I, inv(Q["seq_low"], Q["seq_high"], Q["off_head"], Q["off_tail"]), seq_dom(t),
                      "%s commits a state in which the window and the list disagree" % t.name, names(t))


def implied_zero(guard, node):
    """guard contains the conjunct node == 0"""
    want = CMP("eq", 64, node, ZERO)
    if guard is want:
        return True
    return guard.op == "and" and want in guard.a


def lock_resets(c):
    """C01: locking discards what an earlier owner left uncommitted."""
    fam = family(c)
    c.rule("lock-resets", "when a shared transport has been locked, the working page equals the committed page")
    t = fam["lock"]
    mode = t.mem(ADD(t.T, C(t.o_mode)), 4, t.entry(), "a0_arena_s.mode")
    shared = CMP("eq", 32, mode, C(fam.view.enum("A0_ARENA_MODE_SHARED")))
    ml = t.fn.calls("a0_mtx_lock", "a0_mtx_timedlock", "a0_mtx_trylock")
    c.expect(bool(ml), "lock-resets", t.fn, "a0_transport_lock does not take the transport's mutex")
    for at, r, gd in t.rets():
        t = t.under({mode: C(fam.view.enum("A0_ARENA_MODE_SHARED"))})
        r, gd = subst(r, t.m), subst(gd, t.m)
        for f in STATE:
            a = t.st(t.working(at), f, at)
            b = t.st(t.committed(at), f, at)
            if a is b:
                c.ok("lock-resets")
                continue
            # must agree whenever the lock was taken on a shared transport
            given = AND(gd, shared, EQ(r, ZERO))
            c.implies("lock-resets", t.fn, given, EQ(a, b), seq_dom(t),
                      "a0_transport_lock leaves %s of the working page different from the committed page" % f, names(t))
        for m in ml:
            c.expect(not any(t.is_page_write(i) and t.fn.can_reach(i, m) for i in t.fn.order), "lock-resets", t.fn,
                     "a0_transport_lock restores the working page before it owns the mutex")
    # commit leaves both pages equal
    c.rule("commit-syncs", "after a commit the new working page starts as a copy of the committed page")
    for nm in ("commit", "clear"):
        t = fam[nm]
        for at, r, gd in t.rets():
            for f in STATE:
                a, b = t.st(t.working(at), f, at), t.st(t.committed(at), f, at)
                if a is b:
                    c.ok("commit-syncs")
                    continue
                c.implies("commit-syncs", t.fn, gd, EQ(a, b), seq_dom(t),
                          "after %s the working page's %s differs from the committed page's" % (t.name, f), names(t))


def init_order(c):
    """C01: the initialised mark is set last, when everything else is in place."""
    fam = family(c)
    c.rule("init-complete", "every header member is set before the transport is marked initialised")
    c.rule("init-last", "no header member is written after the transport is marked initialised, nor when it already is")
    t = fam["init"]
    o = fam.view.offset
    init_off = o("a0_transport_hdr_s.initialized")
    base = o("a0_transport_hdr_s.state_pages")
    hw = o("a0_transport_state_s.high_water_mark")
    need = {"arena_size": (t.o_arena, 8), "high_water_mark of page 0": (base + hw, 8),
            "high_water_mark of page 1": (base + t.psz + hw, 8)}
    # only the locked part counts: the conversion of files of an older release precedes the lock
    locks = t.fn.calls("a0_mtx_lock", "a0_mtx_timedlock", "a0_mtx_trylock")
    c.expect(bool(locks), "init-complete", t.fn, "a0_transport_init initialises without taking the mutex")
    conv = conversion_blocks(t)

    def hdr_write(i):
        if i.op == "store":
            a, n = t.g.addr_of(i), i.raw.get("sz", 8)
        elif i.op in ("call", "invoke") and (i.callee or "").startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")):
            a, nn = t.g.val(i.ops[0]), t.g.val(i.ops[2])
            if nn.op != "c":
                return None
            n = nn.a[0]
        else:
            return None
        d = ADD(a, t.hdr, 1, -1)
        if d.op != "c":
            return None
        return d.a[0], n

    marks = []

    def on_inst(s, i, ctx):
        written, marked = s
        if i.block in conv:
            return s
        w = hdr_write(i)
        if w is None:
            return s
        lo, n = w
        if lo <= init_off < lo + n and i.op == "store":
            v = t.g.val(i.ops[0])
            if v is not ZERO:
                marks.append(i)
                miss = [k for k, (a, b) in need.items() if k not in written]
                if miss:
                    c.bad("init-complete", i, "the transport is marked initialised before %s is set" % ", ".join(sorted(miss)), ex.path())
                else:
                    c.ok("init-complete")
                return (written, True)
            return s
        if marked and not (t.o_mtx <= lo < t.o_pages):
            c.bad("init-last", i, "a header member is written after the transport was marked initialised", ex.path())
        got = {k for k, (a, b) in need.items() if lo <= a and a + b <= lo + n}
        return (written | got, marked)

    ex = Explorer(t.fn, on_inst=on_inst)
    run(c, ex, (frozenset(), False))
    c.expect(bool(marks), "init-complete", t.fn, "a0_transport_init never marks the transport initialised")
    # writes only when not yet initialised
    mark_cell = ADD(t.hdr, C(init_off))
    for i in t.fn.order:
        w = hdr_write(i)
        if w is None or i.block in conv or t.o_mtx <= w[0] < t.o_pages:
            continue
        pw = t.o_pages <= w[0] < t.o_idx
        cell = t.g.mem(mark_cell, 1, i.block, 0) if False else None
        gd = t.g.guard(i)
        okg = any(x.op in ("ld", "clob", "sel", "out") and depends_on_cell(t, x, mark_cell) for x in guard_atoms(gd))
        c.expect(okg, "init-last", i, "a header member is written even if the transport is already initialised")
        for m in marks:
            pass
    # values
    c.rule("init-values", "the initial state describes an empty transport filling the arena")
    for i in t.fn.order:
        w = hdr_write(i)
        if w is None or i.block in conv or i.op != "store":
            continue
        if w[0] == t.o_arena:
            v = t.g.val(i.ops[0])
            arg = mk("ld", ADD(t.hdr.a[0], C(fam.view.offset("a0_buf_s.size"))), 8)
            c.expect(v is arg, "init-values", i, "arena_size is not initialised to the size of the arena given")
        if w[0] in (base + hw, base + t.psz + hw):
            v = t.g.val(i.ops[0])
            c.expect(v.op == "c" and v.a[0] >= t.hsz, "init-values", i, "the initial high water mark lies inside the header")


def guard_atoms(gd):
    out = []
    st = [gd]
    seen = set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ("not", "and", "or", "cmp", "sel", "trunc"):
            out.append(x)
            st += gv.children(x)
        elif x.op != "c":
            out.append(x)
    return out


def depends_on_cell(t, x, cell):
    if x.op == "ld":
        return x.a[0] is cell
    if x.op in ("clob", "lmem"):
        return x.a[1] is cell
    return False


def conversion_blocks(t):
    """blocks of init that run before the lock is attempted and test for the pre-0.3 layout"""
    locks = t.fn.calls("a0_mtx_lock", "a0_mtx_timedlock", "a0_mtx_trylock")
    out = set()
    for b in range(len(t.fn.blocks)):
        gd = t.g.reach(b)
        if any(a.op == "cmp" and a.a[0] == "eq" and a.a[3] is C(0x0101) for a in conjuncts(gd)):
            out.add(b)
    return out


def conjuncts(e):
    return list(e.a) if e.op == "and" else [e]


# ------------------------------------------------------------------------------------------ C03

def pre_point(c, t):
    """where the new message starts to be written: the nearest point dominating all its writes"""
    flips = t.flips()
    S = [i for i in t.fn.order if (t.is_frame_write(i) or t.is_page_write(i)) and not any(t.fn.can_reach(i, f) for f in flips)
         and i not in flips]
    if not S:
        return None
    dom = t.fn.dominators()
    common = set.intersection(*[dom[i.block] for i in S])
    b = max(common, key=lambda x: len(dom[x]))
    k = min([i.idx for i in S if i.block == b] or [len(t.fn.blocks[b]) - 1])
    return (b, k)


def append_links(c):
    """C03: effect of an append on window, list and frame."""
    fam = family(c)
    t = fam["alloc"]
    c.rule("append-seq", "an appended message gets the number one above the newest ever used")
    c.rule("append-window", "an append keeps the oldest message, or becomes it when there is none")
    c.rule("append-list", "an append becomes the tail, and is linked after the previous tail in both directions")
    c.rule("append-frame", "the frame handed out is the one linked in, and records its own place and size")
    pre = pre_point(c, t)
    if pre is None:
        c.bad("append-seq", t.fn, "a0_transport_alloc commits what it appends")
        return
    t0 = t
    P = {f: t.w(f, pre) for f in STATE}
    I = inv(P["seq_low"], P["seq_high"], P["off_head"], P["off_tail"])
    e = empty(P["seq_low"], P["seq_high"])
    k_size, k_out = t.fn.arg(1), t.fn.arg(2)
    t = t0.success()
    for at, r, gd in t.rets():
        fa = t.mem(mk("arg", k_out), 8, at)
        Q = {f: t.w(f, at) for f in STATE}
        off = ADD(fa, t.hdr, 1, -1)
        OFF = mk("op", "OFF")
        FS = mk("op", "SIZE")
        given0 = I

        def prove(rule, claim, msg):
            # the position is an arbitrary aligned place; how it is chosen is C04's business
            m = {off: OFF, fa: ADD(t.hdr, OFF)}
            g2, c2 = subst_addr(given0, m), subst_addr(claim, m)
            dom = seq_dom(t, {OFF: (144, 208, 272), mk("arg", k_size): (0, 8)})
            lv = leaves(g2, c2)
            c.implies(rule, t.fn, g2, c2, dom, msg, names(t))

        q = Q
        prove("append-seq", EQ(q["seq_high"], ADD(P["seq_high"], ONE)), "an append does not advance the newest sequence number by one")
        fr = {f: t.frame(fa, f, at) for f in ("seq", "off", "prev_off", "data_size")}
        prove("append-seq", EQ(fr["seq"], q["seq_high"]), "the sequence number in the frame is not the new newest number")
        prove("append-window", EQ(q["seq_low"], SEL(e, q["seq_high"], P["seq_low"])), "an append changes the oldest sequence number wrongly")
        prove("append-window", EQ(q["off_head"], SEL(e, off, P["off_head"])), "an append changes the position of the oldest message wrongly")
        prove("append-list", EQ(q["off_tail"], off), "the new message does not become the newest in the list")
        prove("append-list", IMP(NOT(e), EQ(fr["prev_off"], P["off_tail"])), "the new message does not link back to the previous newest")
        tail = ADD(t.hdr, P["off_tail"])
        nx = t.frame(tail, "next_off", at)
        prove("append-list", IMP(NOT(e), EQ(nx, off)), "the previous newest message does not link to the new one")
        prove("append-frame", EQ(fr["off"], off), "the frame does not record its own offset")
        prove("append-frame", EQ(fr["data_size"], mk("arg", k_size)), "the frame does not record the requested size")
        c.expect(fa.op != "undef" and any(x is t.hdr for x in nodes(fa)), "append-frame", t.fn,
                 "the frame handed out does not lie in the arena")


def subst_addr(e, m):
    return subst(e, m)


def definitely_err(e):
    if e.op == "c":
        return e.a[0] != 0
    if e.op == "sel":
        return definitely_err(e.a[1]) and definitely_err(e.a[2])
    return False


def drop_oldest(c):
    """C03: each committed eviction removes exactly the oldest message."""
    fam = family(c)
    c.rule("evict-oldest", "an eviction removes exactly the oldest message and nothing else")
    t = fam["alloc"]
    steps = evict_steps(t)
    c.expect(bool(steps), "evict-oldest", t.fn, "a0_transport_alloc never drops old messages")
    for f, start, at in steps:
        if not c.expect(at is not None, "evict-oldest", f, "an eviction is never committed"):
            continue
        P = {x: t.w(x, start) for x in STATE}
        Q = {x: t.w(x, at) for x in STATE}
        I = AND(inv(P["seq_low"], P["seq_high"], P["off_head"], P["off_tail"]), NOT(empty(P["seq_low"], P["seq_high"])))
        gd = AND(I)
        head = ADD(t.hdr, P["off_head"])
        nxt = t.frame(head, "next_off", start)
        last = EQ(P["seq_low"], P["seq_high"])
        dom = seq_dom(t)
        p = lambda claim, msg: c.implies("evict-oldest", f, gd, claim, dom, msg, names(t))
        p(EQ(Q["seq_low"], ADD(P["seq_low"], ONE)), "an eviction does not advance the oldest sequence number by one")
        p(EQ(Q["seq_high"], P["seq_high"]), "an eviction changes the newest sequence number")
        p(EQ(Q["off_head"], SEL(last, ZERO, nxt)), "after an eviction the head is not the message after the old head")
        p(EQ(Q["off_tail"], SEL(last, ZERO, P["off_tail"])), "an eviction changes the tail of a non-empty list")
        # executed only when there is something to drop
    # clear
    c.rule("clear", "clearing drops every message and reuses no number")
    t = fam["clear"]
    for f in t.flips():
        at = (f.block, f.idx)
        P = {x: t.w(x, t.entry()) for x in STATE}
        Q = {x: t.w(x, at) for x in STATE}
        I = inv(P["seq_low"], P["seq_high"], P["off_head"], P["off_tail"])
        p = lambda claim, msg: c.implies("clear", f, I, claim, seq_dom(t), msg, names(t))
        p(EQ(Q["seq_high"], P["seq_high"]), "clearing changes the newest sequence number, so numbers are reused")
        p(EQ(Q["seq_low"], ADD(P["seq_high"], ONE)), "clearing does not move the oldest number past the newest")
        p(AND(EQ(Q["off_head"], ZERO), EQ(Q["off_tail"], ZERO)), "clearing leaves the list ends in place")
    c.expect(bool(t.flips()), "clear", t.fn, "a0_transport_clear does not commit")


MUTATORS = ("a0_transport_alloc", "a0_transport_clear", "a0_transport_init", "a0_transport_commit",
            "a0_transport_lock", "a0_transport_unlock")


def readers_pure(c):
    """C03/C22: functions that only look do not change the shared state."""
    fam = family(c)
    c.rule("no-other-writer", "no other transport call writes the shared window, list or frames")
    for n in fam.names:
        if n in MUTATORS:
            continue
        t = fam[n]
        for i in t.fn.order:
            if t.is_page_write(i) or t.is_frame_write(i) or i in t.flips():
                c.bad("no-other-writer", i, "%s writes shared transport state" % n)
        c.ok("no-other-writer")


# ------------------------------------------------------------------------------------------ cursors

def predicates(c):
    """C05: what the questions about a cursor answer."""
    fam = family(c)
    c.rule("predicate", "empty / valid / has-next / has-prev are answered from the current window")

    def q(name, spec, msg, given=None):
        t = fam[name]
        k = t.fn.arg(1)
        sl, sh = t.w("seq_low", t.entry()), t.w("seq_high", t.entry())
        s = t.cursor("_seq", t.entry())
        for at, r, gd in t.rets():
            v = t.g.mem(mk("arg", k), 1, at[0], at[1])
            v = v if gv.is_bool(v) else NOT(EQ(v, ZERO, 8))
            g0 = inv(sl, sh) if given is None else AND(inv(sl, sh), given(sl, sh, s))
            c.implies("predicate", t.fn, g0, EQ(v, spec(sl, sh, s)), seq_dom(t), msg, names(t))
            c.implies("predicate", t.fn, g0, EQ(r, ZERO), seq_dom(t), "%s can fail" % t.name, names(t))

    q("empty", lambda sl, sh, s: empty(sl, sh), "the transport is not reported empty exactly when it holds no message")
    q("nonempty", lambda sl, sh, s: NOT(empty(sl, sh)), "the transport is not reported non-empty exactly when it holds a message")
    q("iter_valid", lambda sl, sh, s: AND(LE(sl, s), LE(s, sh)), "a cursor is not reported valid exactly when its message is retained",
      given=lambda sl, sh, s: LE(ONE, s))
    q("has_next", lambda sl, sh, s: AND(NOT(empty(sl, sh)), LT(s, sh)), "a next message is not reported exactly when there is a newer one")
    q("has_prev", lambda sl, sh, s: AND(NOT(empty(sl, sh)), LT(sl, s)), "a previous message is not reported exactly when there is an older one",
      given=lambda sl, sh, s: LE(s, sh))


def window_out(c):
    fam = family(c)
    c.rule("window", "the reported oldest and newest numbers are those of the current window")
    for n in ("seq_low", "seq_high"):
        t = fam[n]
        k = t.fn.arg(1)
        for at, r, gd in t.rets():
            v = t.g.mem(mk("arg", k), 8, at[0], at[1])
            c.expect(v is t.w(n, t.entry()) and r is ZERO, "window", t.fn, "%s does not report the window" % t.name)


def moves(c):
    """C05/C03: where the cursor goes."""
    fam = family(c)
    c.rule("move", "each cursor move goes to the message it promises, or is refused leaving the cursor in place")

    def m(name, refuse, newseq, newoff, msg, given=None):
        t = fam[name]
        E0 = t.entry()
        sl, sh = t.w("seq_low", E0), t.w("seq_high", E0)
        oh, ot = t.w("off_head", E0), t.w("off_tail", E0)
        s, o = t.cursor("_seq", E0), t.cursor("_off", E0)
        I = inv(sl, sh, oh, ot)
        if given is not None:
            I = AND(I, given(sl, sh, s))
        for at, r, gd in t.rets():
            s2, o2 = t.cursor("_seq", at), t.cursor("_off", at)
            rf = refuse(sl, sh, s)
            dom = seq_dom(t)
            c.implies("move", t.fn, I, EQ(NOT(EQ(r, ZERO)), rf), dom, "%s is refused in the wrong cases" % t.name, names(t))
            c.implies("move", t.fn, AND(I, rf), AND(EQ(s2, s), EQ(o2, o)), dom, "a refused %s moves the cursor" % t.name, names(t))
            ns, no = newseq(t, sl, sh, s, o, oh, ot), newoff(t, sl, sh, s, o, oh, ot)
            c.implies("move", t.fn, AND(I, NOT(rf)), AND(EQ(s2, ns), EQ(o2, no)), dom, msg, names(t))

    fr = lambda t, o, f: t.frame(ADD(t.hdr, o), f, t.entry())
    m("jump_head", lambda sl, sh, s: empty(sl, sh), lambda t, sl, sh, s, o, oh, ot: sl, lambda t, sl, sh, s, o, oh, ot: oh,
      "a0_transport_jump_head does not go to the oldest message")
    m("jump_tail", lambda sl, sh, s: empty(sl, sh), lambda t, sl, sh, s, o, oh, ot: sh, lambda t, sl, sh, s, o, oh, ot: ot,
      "a0_transport_jump_tail does not go to the newest message")

    def sn_off(t, sl, sh, s, o, oh, ot):
        return SEL(LT(s, sl), oh, fr(t, o, "next_off"))

    def sn_seq(t, sl, sh, s, o, oh, ot):
        return SEL(LT(s, sl), sl, fr(t, fr(t, o, "next_off"), "seq"))
    m("step_next", lambda sl, sh, s: OR(empty(sl, sh), NOT(LT(s, sh))), sn_seq, sn_off,
      "a0_transport_step_next does not go to the following message, or to the oldest one when overtaken")
    m("step_prev", lambda sl, sh, s: OR(empty(sl, sh), NOT(LT(sl, s))),
      lambda t, sl, sh, s, o, oh, ot: fr(t, fr(t, o, "prev_off"), "seq"),
      lambda t, sl, sh, s, o, oh, ot: fr(t, o, "prev_off"),
      "a0_transport_step_prev does not go to the preceding message", given=lambda sl, sh, s: LE(s, sh))


def frame_access(c):
    fam = family(c)
    c.rule("frame", "reading through an overtaken cursor is refused; otherwise the cursor's own message is given")
    t = fam["frame"]
    E0 = t.entry()
    sl, sh = t.w("seq_low", E0), t.w("seq_high", E0)
    s, o = t.cursor("_seq", E0), t.cursor("_off", E0)
    k = t.fn.arg(1)
    for at, r, gd in t.rets():
        I = AND(inv(sl, sh), LE(s, sh))
        c.implies("frame", t.fn, I, EQ(NOT(EQ(r, ZERO)), LT(s, sl)), seq_dom(t),
                  "a0_transport_frame is refused in the wrong cases", names(t))
    t = t.success()
    for at, r, gd in t.rets():
        v2 = t.g.mem(mk("arg", k), 8, at[0], at[1])
        c.expect(v2 is ADD(t.hdr, o), "frame", t.fn, "a0_transport_frame hands out something other than the cursor's message")


BIG = (1 << 64)


def jump_bounds(c):
    fam = family(c)
    c.rule("jump", "a jump is accepted only to an aligned place behind the header where a whole message fits in the arena")
    t = fam["jump"]
    k = t.fn.arg(1)
    off = mk("arg", k)
    E0 = t.entry()
    s, o = t.cursor("_seq", E0), t.cursor("_off", E0)
    arena = t.mem(ADD(t.hdr, C(t.o_arena)), 8, E0, "a0_transport_hdr_s.arena_size")
    ds = t.frame(ADD(t.hdr, off), "data_size", E0)
    sq = t.frame(ADD(t.hdr, off), "seq", E0)

    def dom(v):
        if v is off:
            return (0, 8, 16, 64, 128, 144, 152, 160, 200, 208, 224, 256, 4080, 4096, 5008, BIG - 16, BIG - 48, BIG - 64)
        if v is arena:
            return (256, 4096)
        if v is ds:
            return (0, 8, 16, 31, 32, 48, 72, 73, 3800, BIG - 1, BIG - 160, BIG - 200, BIG - 256)
        return (3,) if v is s else (5,) if v is o else (7,)
    for at, r, gd in t.rets():
        s2, o2 = t.cursor("_seq", at), t.cursor("_off", at)
        acc = EQ(r, ZERO)
        # mathematically: off%16==0, off>=144, off+40+ds <= arena (no wrap-around)
        bad = None
        for row, v in tabulate([acc, off, arena, ds, s2, o2, s, o, sq], dom):
            c.rows += 1
            fits = v[1] % 16 == 0 and v[1] >= t.hsz and v[1] + t.fsz + v[3] <= v[2]
            if v[0] and not fits:
                bad = ("accepts offset %d of an arena of %d bytes with a message of %d bytes there" % (v[1], v[2], v[3]), row)
                break
            if not v[0] and (v[4] != v[6] or v[5] != v[7]):
                bad = ("moves the cursor although it refuses", row)
                break
            if v[0] and (v[5] != v[1] or v[4] != v[8]):
                bad = ("does not put the cursor on the message at the offset", row)
                break
            if not v[0] and fits and v[1] + t.fsz + v[3] < v[2]:
                bad = ("refuses offset %d of an arena of %d bytes with a message of %d bytes there" % (v[1], v[2], v[3]), row)
                break
        c.expect(bad is None, "jump", t.fn, "a0_transport_jump " + (bad[0] if bad else ""))


# ------------------------------------------------------------------------------------------ C04

def placement(c):
    fam = family(c)
    c.rule("place-fits", "an accepted message lies, header included, behind the transport header, aligned and inside the arena")
    c.rule("place-refuse", "a message that cannot fit even in an empty arena is refused")
    c.rule("place-unchanged", "a refused append changes nothing")
    t = fam["alloc"]
    E0 = t.entry()
    t0 = t
    k_size, k_out = t.fn.arg(1), t.fn.arg(2)
    size = mk("arg", k_size)
    sl, sh, ot = t.w("seq_low", E0), t.w("seq_high", E0), t.w("off_tail", E0)
    oh = t.w("off_head", E0)
    arena = t.mem(ADD(t.hdr, C(t.o_arena)), 8, E0, "a0_transport_hdr_s.arena_size")
    tds = t.frame(ADD(t.hdr, ot), "data_size", E0)
    mode = t.mem(ADD(t.T, C(t.o_mode)), 4, E0, "a0_arena_s.mode")

    def dom(v):
        if v is size:
            return (0, 1, 8, 15, 16, 17, 24, 72, 73, 856, 857, 3911, 3912, 3913, BIG - 1, BIG - 20, BIG - 40, BIG - 41, BIG - 160,
                    BIG - 184, BIG - 200, BIG - 4096)
        if v is sl:
            return (0, 1, 2)
        if v is sh:
            return (0, 1)
        if v is ot or v is oh:
            return (0, 144, 208)
        if v is tds:
            return (0, 1, 8, 24, 25, 784)
        if v is arena:
            return (256, 1040, 4096)
        if v is mode:
            return (0, 1)
        return (0, 1)

    t = t0.success()
    for at, r, gd in t.rets():
        fa = t.mem(mk("arg", k_out), 8, at)
        off = ADD(fa, t.hdr, 1, -1)
        okc = t0.ok_cond()
        extra = [x for x in leaves(off, okc) if x not in (size, sl, sh, ot, oh, tds, arena, mode)]
        if any(x is t.hdr for x in extra):
            raise AnalysisBroken("position of a new message is not relative to the arena")
        I = AND(inv(sl, sh, oh, ot), IMP(NOT(EQ(ot, ZERO)), EQ(CMP("ult", 64, arena, ADD(ADD(ot, tds), C(t.fsz))), ZERO)))
        bad = None
        for row, v in tabulate([okc, off, size, arena, I], dom):
            c.rows += 1
            if not v[4]:
                continue
            o = v[1] % BIG
            inside = o >= t.hsz and o % 16 == 0 and o + t.fsz + v[2] <= v[3]
            if v[0] and not inside:
                bad = ("place-fits", "a message of %d bytes is placed at offset %d of an arena of %d bytes" % (v[2], o, v[3]))
                break
            if not v[0] and t.hsz + t.fsz + v[2] < v[3]:
                bad = ("place-refuse", "a message of %d bytes is refused by an arena of %d bytes" % (v[2], v[3]))
                break
        for rl in ("place-fits", "place-refuse"):
            c.expect(bad is None or bad[0] != rl, rl, t.fn, "a0_transport_alloc: " + (bad[1] if bad else ""))
    # nothing is written on a refused append
    bad = t0.failing()
    for i in t0.fn.order:
        if t0.is_page_write(i) or t0.is_frame_write(i) or i in t0.flips():
            c.expect(i.block not in bad, "place-unchanged", i, "a0_transport_alloc changes the transport although it refuses the message")


def loose(dom, t):
    def d(v):
        x = dom(v)
        if len(x) > 8:
            return x[::4] + x[-1:]
        return x
    return d


def no_overlap(c):
    fam = family(c)
    c.rule("no-overlap", "when the new message is written, the oldest retained message does not overlap it, and no wrapped-around remainder is left behind it")
    t = fam["alloc"]
    pre = pre_point(c, t)
    if pre is None:
        c.bad("no-overlap", t.fn, "a0_transport_alloc commits what it appends")
        return
    t0 = t
    k_size, k_out = t.fn.arg(1), t.fn.arg(2)
    size = mk("arg", k_size)
    t = t0.success()
    for at, r, gd in t.rets():
        fa = t.mem(mk("arg", k_out), 8, at)
        off = ADD(fa, t.hdr, 1, -1)
        P = {f: t.w(f, pre) for f in STATE}
        I = inv(P["seq_low"], P["seq_high"], P["off_head"], P["off_tail"])
        hds = t.frame(ADD(t.hdr, P["off_head"]), "data_size", pre)
        guard = AND(t.g.reach(pre[0]), t0.ok_cond())
        sl, sh, oh, ot = P["seq_low"], P["seq_high"], P["off_head"], P["off_tail"]
        m = {}
        m.update({EQ(sh, ZERO): ZERO, LT(sh, sl): ZERO})
        guard = subst(guard, m)
        end = ADD(ADD(off, size), C(t.fsz))
        hend = ADD(ADD(oh, hds), C(t.fsz))
        inter = AND(LT(off, hend), LT(oh, end))
        wrap = AND(LT(ot, oh), EQ(off, C(align16(t.hsz))))
        given = AND(guard, I, NOT(empty(sl, sh)))
        E0 = t.entry()
        esl, esh, eot = (t0.w(x, E0) for x in ("seq_low", "seq_high", "off_tail"))
        given = AND(given, EQ(EQ(eot, ZERO), empty(esl, esh)))

        def dom(v):
            f = leaf_field(t, v) or ""
            if v is size:
                return (0, 24, 88)
            if v is hds:
                return (0, 24, 25)
            if v in (oh, ot):
                return (144, 208, 272)
            if v in (sl, sh):
                return (1, 2)
            if v is eot:
                return (0, 144, 208)
            if f.endswith((".seq_low", ".seq_high")):
                return (0, 1)
            if f.endswith("data_size"):
                return (0, 24)
            if f.endswith("arena_size"):
                return (272, 400)
            if f.endswith((".off_head", ".next_off")):
                return (144,)
            return (0, 1)
        c.implies("no-overlap", t.fn, given, NOT(inter), dom, "the new message can overlap the oldest retained one", names(t))
        c.implies("no-overlap", t.fn, given, NOT(wrap), dom,
                  "a message placed at the start of the arena can leave older ones behind the newest and overlap the rest", names(t))


def replace_term(e, term, new, memo=None):
    """replace occurrences of a linear term inside sums"""
    memo = {} if memo is None else memo
    if e is term:
        return new
    if e.id in memo:
        return memo[e.id]
    if e.op == "lin":
        ct, tt = parts(term)
        c0, t0 = e.a[0], dict(e.a[1])
        if all(t0.get(k) == v for k, v in tt.items()) and tt:
            rest = {k: v for k, v in t0.items() if k not in tt}
            r = ADD(ADD(gv.LIN(c0, {k: v for k, v in rest.items()}), C(-ct)), new)
            # inner terms may contain it again
            memo[e.id] = r
            return r
    ch = gv.children(e)
    if not ch or e.op in gv.LEAF:
        memo[e.id] = e
        return e
    m = {x: replace_term(x, term, new, memo) for x in ch}
    r = subst(e, m)
    memo[e.id] = r
    return r


def align16(n):
    return (n + 15) & ~15


def high_water(c):
    fam = family(c)
    c.rule("used-covers", "the used-space mark covers every retained message after an append and after an eviction")
    c.rule("used-report", "used space is the mark of the current state")
    c.rule("resize", "the arena is never shrunk below the used space; a refusal changes nothing")
    t = fam["alloc"]
    pre = pre_point(c, t)
    if pre is None:
        c.bad("used-covers", t.fn, "a0_transport_alloc commits what it appends")
        return
    size = mk("arg", t.fn.arg(1))
    k_out, t0 = t.fn.arg(2), t
    t = t0.success()
    for at, r, gd in t.rets():
        fa = t.mem(mk("arg", k_out), 8, at)
        off = ADD(fa, t.hdr, 1, -1)
        OFF = mk("op", "OFF")
        h0 = t.w("high_water_mark", pre)
        h1 = t.w("high_water_mark", at)
        h1 = replace_term(subst(h1, {off: OFF}), off, OFF)
        end = ADD(ADD(OFF, size), C(t.fsz))

        def dom(v):
            if v is OFF:
                return (144, 208, 512)
            if v is size:
                return (0, 24, 80)
            return (144, 184, 208, 300, 1000)
        c.implies("used-covers", t.fn, ONE, AND(LE(end, h1), LE(h0, h1)), dom, "after an append the used space does not cover all messages", names(t))
    for f in t.flips():
        loops = [h for h, L in t.g.loop.items() if f.block in L]
        start = (max(loops, key=lambda h: len(t.fn.dominators()[h])), 0) if loops else t.entry()
        at = (f.block, f.idx)
        P = {x: t.w(x, start) for x in STATE}
        q = t.w("high_water_mark", at)
        I = AND(inv(P["seq_low"], P["seq_high"], P["off_head"], P["off_tail"]), LT(P["seq_low"], P["seq_high"]), LE(ONE, P["seq_low"]))
        hd = t.frame(ADD(t.hdr, P["off_head"]), "data_size", start)
        tl = t.frame(ADD(t.hdr, P["off_tail"]), "data_size", start)
        ho = t.frame(ADD(t.hdr, P["off_head"]), "off", start)
        hend = ADD(ADD(P["off_head"], hd), C(t.fsz))
        tend = ADD(ADD(P["off_tail"], tl), C(t.fsz))
        given = AND(I, EQ(ho, P["off_head"]), LE(hend, P["high_water_mark"]), LE(tend, P["high_water_mark"]))
        want = SEL(EQ(P["high_water_mark"], hend), LE(tend, q), LE(P["high_water_mark"], q))

        def dom2(v):
            if v in (P["off_head"], P["off_tail"], ho):
                return (144, 208)
            if v in (hd, tl):
                return (0, 24)
            if v is P["high_water_mark"]:
                return (184, 208, 248, 272, 400)
            fl = leaf_field(t, v) or ""
            if fl.endswith(("seq_low", "seq_high")):
                return (0, 1, 2)
            return (0, 144, 208)
        c.implies("used-covers", f, given, want, dom2, "after an eviction the used space does not cover the remaining messages", names(t))
    t = fam["used_space"]
    k = t.fn.arg(1)
    for at, r, gd in t.rets():
        v = t.g.mem(mk("arg", k), 8, at[0], at[1])
        c.expect(v is t.w("high_water_mark", t.entry()) and r is ZERO, "used-report", t.fn, "a0_transport_used_space does not report the current mark")
    t = fam["resize"]
    E0 = t.entry()
    new = mk("arg", t.fn.arg(1))
    hw = t.w("high_water_mark", E0)
    cell = ADD(t.hdr, C(t.o_arena))
    old = t.mem(cell, 8, E0, "a0_transport_hdr_s.arena_size")
    for at, r, gd in t.rets():
        now = t.mem(cell, 8, at, "a0_transport_hdr_s.arena_size")
        dom = lambda v: (143, 144, 145, 200, 4096) if v is not t.idx(E0) else (0, 1)
        c.implies("resize", t.fn, EQ(r, ZERO), AND(LE(hw, new), EQ(now, new)), dom, "a0_transport_resize accepts a size below the used space", names(t))
        c.implies("resize", t.fn, NOT(EQ(r, ZERO)), AND(LT(new, hw), EQ(now, old)), dom, "a0_transport_resize refuses wrongly, or changes the arena while refusing", names(t))


# ------------------------------------------------------------------------------------------ C22 (modes)

def modes(c):
    fam = family(c)
    v = fam.view
    SH, EXCL, RO = v.enum("A0_ARENA_MODE_SHARED"), v.enum("A0_ARENA_MODE_EXCLUSIVE"), v.enum("A0_ARENA_MODE_READONLY")
    c.rule("readonly-append", "an append to a read-only arena is refused before anything is touched")
    c.rule("lock-mode", "only shared arenas are locked, unlocked and waited on")
    t = fam["alloc"]
    mode = t.mem(ADD(t.T, C(t.o_mode)), 4, t.entry(), "a0_arena_s.mode")
    for at, r, gd in t.rets():
        rr = subst(r, {mode: C(RO)})
        c.expect(definitely_err(rr), "readonly-append", t.fn, "a0_transport_alloc can succeed on a read-only arena")
    for i in t.fn.order:
        if t.is_page_write(i) or t.is_frame_write(i) or i in t.flips():
            c.expect(subst(t.g.guard(i), {mode: C(RO)}) is ZERO, "readonly-append", i, "a0_transport_alloc writes to a read-only arena")
    for at, r, gd in t.rets():
        a, b = (subst(r, {mode: C(m)}) for m in (SH, EXCL))
        c.expect(a is b or not definitely_err(b), "lock-mode", t.fn, "a0_transport_alloc refuses an exclusive arena")
    for n in ("commit", "clear"):
        u = fam[n]
        mo = u.mem(ADD(u.T, C(u.o_mode)), 4, u.entry(), "a0_arena_s.mode")
        for at, r, gd in u.rets():
            c.expect(not definitely_err(subst(r, {mo: C(EXCL)})), "lock-mode", u.fn, "%s refuses an exclusive arena" % u.name)
    for n, calls in (("lock", ("a0_mtx_lock", "a0_mtx_timedlock", "a0_mtx_trylock")), ("unlock", ("a0_mtx_unlock",)),
                     ("timedwait", ("a0_cnd_timedwait", "a0_cnd_wait")), ("wait", ("a0_cnd_timedwait", "a0_cnd_wait"))):
        t = fam[n]
        mode = t.mem(ADD(t.T, C(t.o_mode)), 4, t.entry(), "a0_arena_s.mode")
        sites = t.fn.calls(*calls)
        c.expect(bool(sites), "lock-mode", t.fn, "%s never reaches %s" % (t.name, "/".join(calls)))
        for i in sites:
            for m in (EXCL, RO):
                c.expect(subst(t.g.guard(i), {mode: C(m)}) is ZERO, "lock-mode", i,
                         "%s calls %s on an arena that is not shared" % (t.name, i.callee))
        if n in ("timedwait", "wait"):
            for at, r, gd in t.rets():
                for m in (EXCL, RO):
                    c.expect(definitely_err(subst(r, {mode: C(m)})), "lock-mode", t.fn,
                             "waiting on an arena that is not shared does not fail")
        elif n == "lock":
            # exclusive / read-only arenas are usable without the lock
            for at, r, gd in t.rets():
                for m in (EXCL, RO):
                    c.expect(subst(r, {mode: C(m)}) is ZERO, "lock-mode", t.fn, "locking an arena that is not shared fails")
                    for i in t.fn.order:
                        if t.is_page_write(i):
                            c.expect(subst(t.g.guard(i), {mode: C(m)}) is ZERO, "lock-mode", i,
                                     "%s writes to the state pages of an arena that is not shared" % t.name)
        else:
            for m in (RO,):
                for i in t.fn.order:
                    if t.is_page_write(i):
                        c.expect(subst(t.g.guard(i), {mode: C(m)}) is ZERO, "lock-mode", i,
                                 "%s writes to the state pages of a read-only arena" % t.name)


# ------------------------------------------------------------------------------------------ C06

def waits(c):
    fam = family(c)
    o = fam.view.offset
    c.rule("wait-success", "a wait reports success only when the condition was found to hold after the last wake-up")
    c.rule("wait-recheck", "the condition is evaluated before the first sleep and after every wake-up")
    c.rule("wait-shutdown", "no thread goes to sleep once shutdown has been requested")
    c.rule("wait-count", "the number of waiters is raised before sleeping and lowered once, with a wake-up, before returning")
    for n in ("timedwait", "wait"):
        t = fam[n]
        fn = t.fn
        sleeps = fn.calls("a0_cnd_timedwait", "a0_cnd_wait")
        if not c.expect(bool(sleeps), "wait-recheck", fn, "%s never sleeps on the transport's condition" % t.name):
            continue
        preds = [i for i in fn.order if is_indirect(i)]
        if not c.expect(bool(preds), "wait-recheck", fn, "%s never evaluates the condition" % t.name):
            continue
        cell = ADD(t.T, C(o("a0_transport_s._shutdown")))
        outs = {t.g.val(p.ops[1]) for p in preds}
        for s in sleeps:
            c.expect(t.g.val(s.ops[0]) is ADD(t.hdr, C(t.o_cnd)) and t.g.val(s.ops[1]) is ADD(t.hdr, C(t.o_mtx)),
                     "wait-recheck", s, "%s sleeps on something other than the transport's condition and mutex" % t.name)
        # state: outcome of the last evaluation since the last wake-up, what the answer cell holds, the request seen

        def on_inst(s, i, ctx):
            found, sat, shut = s
            if i in preds:
                z = is_zero(fn, i)
                return [Assume((True, True, shut), (z, True)), Assume((False, False, shut), (z, True)),
                        Assume((False, None, shut), (z, False))]
            if i in sleeps:
                c.expect(shut is False, "wait-shutdown", i, "%s can go to sleep although shutdown was requested" % t.name, ex.path())
                c.expect(not found, "wait-recheck", i, "%s can go to sleep although the condition was found to hold" % t.name, ex.path())
                return (False, sat, None)
            if i.op in ("load", "store") and t.g.addr_of(i) is cell:
                if i.op == "store":
                    return (found, sat, None)
                z = is_zero(fn, i)
                if shut is not None:
                    return Assume(s, (z, not shut))
                return [Assume((found, sat, True), (z, False)), Assume((found, sat, False), (z, True))]
            if i.op == "store" and t.g.addr_of(i) in outs:
                v = t.g.val(i.ops[0])
                return (found, bool(v.a[0]) if v.op == "c" else None, shut)
            if i.op == "load" and t.g.addr_of(i) in outs and sat is not None:
                return Assume(s, (is_zero(fn, i), not sat))
            return s

        def on_ret(s, i, ctx):
            if ctx.nonzero(i.ops[0]) is not True:
                c.expect(s[0], "wait-success", fn, "%s can report success although the condition was not found to hold" % t.name, ex.path())
        ex = Explorer(fn, on_inst=on_inst, on_ret=on_ret)
        run(c, ex, (False, None, None))
        cnt = ADD(t.T, C(o("a0_transport_s._wait_cnt")))

        def on_inst(s, i, ctx):
            fresh, k, owed = s
            if i in preds:
                return (True, k, owed)
            if i in sleeps:
                c.expect(fresh, "wait-recheck", i, "%s can sleep without having evaluated the condition since the last wake-up" % t.name, ex.path())
                c.expect(k == 1, "wait-count", i, "%s can sleep without being counted as a waiter" % t.name, ex.path())
                return (False, k, owed - {"woke"})
            if i.op == "store" and t.g.addr_of(i) is cnt:
                d = ADD(t.g.val(i.ops[0]), t.g.before(i, cnt, 4), 1, -1)
                if d.op == "c" and d.a[0] in (1, -1, 2**32 - 1, 2**64 - 1):
                    dv = 1 if d.a[0] == 1 else -1
                    return (fresh, k + dv, owed | {"left"} if dv < 0 else owed)
                c.bad("wait-count", i, "%s changes the number of waiters by something other than one" % t.name, ex.path())
                return (fresh, k, owed)
            if i.is_call("a0_cnd_broadcast"):
                return (fresh, k, owed | {"woke"})
            return s

        def on_ret(s, i, ctx):
            c.expect(s[1] == 0, "wait-count", t.fn, "%s can return with the number of waiters out of balance" % t.name, ex.path())
            c.expect("left" not in s[2] or "woke" in s[2], "wait-count", t.fn,
                     "%s can return without waking a shutdown that waits for the last waiter to leave" % t.name, ex.path())
        ex = Explorer(fn, on_inst=on_inst, on_ret=on_ret)
        run(c, ex, (False, 0, frozenset()))
    for n in fam.names:
        if n == "init":
            continue
        t = fam[n]
        cell = ADD(t.T, C(o("a0_transport_s._shutdown")))
        for i in t.fn.order:
            if i.op == "store" and t.g.addr_of(i) is cell:
                v = t.g.val(i.ops[0])
                c.expect(v.op == "c" and v.a[0] != 0 or v is t.g.before(i, cell, 1), "wait-shutdown", i,
                         "%s takes back a shutdown request, so waiters that have not seen it yet sleep on" % t.name)


def wait_dom(t):
    def dom(v):
        if v.op == "call":
            return (0, 1, 7)
        if v.op == "clob" and v.a[1].op == "g":
            return (0, 110)
        if v.op in ("lphi",):
            return (0, 1)
        f = leaf_field(t, v) or ""
        if f.endswith((".tv_sec",)):
            return (0, 1)
        if f.endswith((".tv_nsec",)):
            return (0,)
        if v.op == "out" and v.a[3] == 8:
            return (0, 1) if v.a[2] == 0 else (0,)
        return (0, 1)
    return dom


def notify(c):
    fam = family(c)
    o = fam.view.offset
    c.rule("notify", "every commit wakes all waiters before the call returns")
    for n in fam.names:
        t = fam[n]
        flips = set(t.flips())
        if not flips:
            continue
        bc = [i for i in t.fn.calls("a0_cnd_broadcast") if t.g.val(i.ops[0]) is ADD(t.hdr, C(t.o_cnd))]

        # waking before or after is the same: waiters run only once the lock is let go
        def on_inst(s, i, ctx):
            if i in flips:
                return (True, s[1])
            if i in bc:
                return (s[0], True)
            if i.is_call("a0_cnd_wait", "a0_cnd_timedwait", "a0_mtx_unlock"):
                return (s[0], False) if not s[0] else s
            return s

        def on_ret(s, i, ctx):
            c.expect(not s[0] or s[1], "notify", t.fn, "%s can return from a commit without waking the waiters" % t.name, ex.path())
        ex = Explorer(t.fn, on_inst=on_inst, on_ret=on_ret)
        run(c, ex, (False, False))
    c.rule("shutdown", "a shutdown request is published, wakes everyone, and returns only when no waiter is left")
    t = fam["shutdown"]
    cell, cnt = ADD(t.T, C(o("a0_transport_s._shutdown"))), ADD(t.T, C(o("a0_transport_s._wait_cnt")))

    def on_inst(s, i, ctx):
        if i.op == "store" and t.g.addr_of(i) is cell:
            return (t.g.val(i.ops[0]) is ONE, s[1])
        if i.is_call("a0_cnd_broadcast"):
            return (s[0], True)
        if i.is_call("a0_cnd_wait", "a0_cnd_timedwait"):
            c.expect(all(s), "shutdown", i, "a0_transport_shutdown waits before it has woken the waiters", ex.path())
        return s

    def on_ret(s, i, ctx):
        c.expect(all(s), "shutdown", t.fn, "a0_transport_shutdown can return without having set the request and woken the waiters", ex.path())
    ex = Explorer(t.fn, on_inst=on_inst, on_ret=on_ret)
    run(c, ex, (False, False))
    for at, r, gd in t.rets():
        now = t.mem(cnt, 4, at, "a0_transport_s._wait_cnt")
        c.implies("shutdown", t.fn, gd, EQ(now, ZERO, 32), wait_dom(t),
                  "a0_transport_shutdown can return while a waiter is left", names(t))
        v = t.mem(cell, 1, at, "a0_transport_s._shutdown")
    t = fam["shutdown_requested"]
    for at, r, gd in t.rets():
        v = t.mem(mk("arg", t.fn.arg(1)), 1, at)
        cell = t.mem(ADD(t.T, C(o("a0_transport_s._shutdown"))), 1, t.entry(), "a0_transport_s._shutdown")
        c.implies("shutdown", t.fn, ONE, EQ(EQ(v, ZERO, 8), EQ(cell, ZERO, 8)), wait_dom(t), "a shutdown request is not reported", names(t))


PREDS = {"empty_pred": "empty", "nonempty_pred": "nonempty", "has_next_pred": "has_next"}


def pred_fns(c):
    """the ready-made conditions mean what their names say"""
    c.rule("condition", "a ready-made condition evaluates the question it is named after on the transport it was made for")
    fam = family(c)
    for p, q in PREDS.items():
        t = fam[p]
        fns = sorted({n.a[0] for i in t.fn.order for op in i.ops for n in nodes(t.g.val(op)) if n.op == "f"}) or \
            sorted({e[1] for i in t.fn.order for op in i.ops for e in [t.fn.expr(op)] if e[0] == "f"})
        if not fns:
            # constant aggregates carry the name directly
            fns = sorted({x for i in t.fn.order for op in i.ops for x in fn_names(op)})
        if not c.expect(len(fns) == 1, "condition", t.fn, "%s has no evaluation function" % t.name):
            continue
        v = c.prog.view([fns[0]], KEEP)
        f = c.use(v[fns[0]])
        g = G(f, clobbers=clobbers)
        u = fam[q]
        # compare with the question itself, on *(locked transport)
        T = mk("ld", mk("arg", f.arg(0)), 8)
        out = mk("arg", f.arg(1))
        for at, r, gd in u.rets():
            want = u.mem(mk("arg", u.fn.arg(1)), 1, at)
            want = relocate(want, {u.T: T})
            for rr in f.rets():
                got = g.mem(out, 1, rr.block, rr.idx)
                dom = lambda x: (0, 1, 2, 3) if x.op == "ld" and x.a[1] == 8 else (0, 1)
                c.implies("condition", f, ONE, AND(EQ(EQ(got, ZERO, 8), EQ(want, ZERO, 8)), EQ(g.val(rr.ops[0]), ZERO, 32)), dom,
                          "%s does not evaluate %s" % (t.name, u.name))


def fn_names(op):
    if op[0] == "f":
        return [op[1]]
    if op[0] == "agg":
        return [x for y in op[1] for x in fn_names(y)]
    return []


def relocate(e, m):
    """rebuild an expression with some leaves replaced, including inside addresses"""
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        if x.id in memo:
            return memo[x.id]
        if x.op == "ld":
            r = mk("ld", go(x.a[0]), x.a[1])
        elif gv.children(x):
            ch = gv.children(x)
            r = subst(x, {y: go(y) for y in ch})
        else:
            r = x
        memo[x.id] = r
        return r
    return go(e)
