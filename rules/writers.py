"""Writers and middleware: C14 (one atomic append or an error), C15 (standard headers), C16 (conditional and merging writes)."""
from rules.common import *

CHAIN = "a0_middleware_chain_s"
# functions that never write through a caller's packet, chain or middleware
PURE = ("a0_time_", "a0_uuid", "a0_u64_to_str", "a0_u32_to_str", "a0_transport_", "a0_flat_packet", "yyjson_", "A0_MAKE_")


def no_clobber(callee, field, addr):
    return not (callee or "").startswith(PURE)


def public(prog):
    v = prog.view(["a0_transport_lock"], [], address_taken=True)
    keep = sorted(n for n, st, f, ln, sn in v.defined.values() if "/src/" in f and not st)
    return v, keep


def peel(x, base):
    """a value read from the caller's own copy of an argument: its original content"""
    if x.op == "clob" and x.a[1] in base:
        return mk("ld", x.a[1], x.a[2])
    return x


def LD(a, size=8):
    return mk("ld", a, size)


class Writers:
    """what the writer module is made of, found by the roles the functions play"""

    def __init__(self, c):
        self.c = c
        self.v0, self.keep = public(c.prog)
        v = c.prog.view(["a0_writer_write", "a0_writer_init", "a0_middleware_compose"], self.keep)
        D = set()
        fn = v["a0_writer_write"]
        g = G(fn)
        for i in fn.allcalls():
            for k in i.raw.get("byval") or []:
                x = g.before(i, ADD(g.val(i.ops[k]), C(24)), 8)
                if x.op == "f":
                    D.add(x.a[0])
            if i.callee and i.callee in v.defined and i.callee not in self.keep and not i.callee.startswith("llvm."):
                D.add(i.callee)
        if len(D) != 1:
            raise AnalysisBroken("the function that dispatches a packet along the chain was not found (%s)" % sorted(D))
        self.D = D.pop()
        self.offs = v
        g = G(v["a0_writer_init"])
        a0 = mk("arg", 0)
        self.base = [g.at_ret(ADD(a0, C(o)), 8) for o in (8, 16, 24)]
        g = G(v["a0_middleware_compose"])
        a2 = mk("arg", 2)
        self.comp = [g.at_ret(ADD(a2, C(o)), 8) for o in (8, 16, 24)]
        # every function with the signature of a processing step, by its slot
        self.steps = {}
        names = [n for n in self.v0.address_taken]
        v = c.prog.view(names, self.keep + [self.D])
        for n in sorted(names):
            f = v.get(n)
            if f is None or f.name == self.D:
                continue
            ps = f._params()
            tys = [p[3] for p in ps]
            if ["struct", CHAIN] in tys:
                self.steps[n] = "locked" if ["struct", "a0_transport_locked_s"] in tys else "plain"
        self.view = c.prog.view(sorted(self.steps) + [self.D], self.keep + [self.D])

    def fname(self, x):
        """name of a function-pointer value; None for null, '?' otherwise"""
        x = strip(x)
        if x.op == "f":
            return x.a[0]
        return None if x is ZERO else "?"


def strip(x):
    """drop the unconstrained alternative of a failed call"""
    if x.op == "sel":
        a, b = strip(x.a[1]), strip(x.a[2])
        for p, q in ((a, b), (b, a)):
            if p.op == "f":
                return p
    return x


class Step:
    """a processing step: its arguments, and the places where it hands the packet on"""

    def __init__(self, w, name):
        self.w, self.name = w, name
        self.fn = w.c.use(w.view[name])
        self.locked = w.steps[name] == "locked"
        self.g = G(self.fn, clobbers=no_clobber)
        self.ud = mk("arg", 0)
        self.tlk = mk("arg", 1) if self.locked else None
        self.pkt = mk("arg", 2 if self.locked else 1)
        self.chain = mk("arg", 3 if self.locked else 2)
        self.fwd = []
        for i in self.fn.allcalls():
            if i.callee == w.D:
                self.fwd.append(i)
            elif is_indirect(i):
                t = self.orig(self.g.val(i.fptr))
                if t is LD(ADD(self.chain, C(24))) or t.op == "f" and t.a[0] == w.D:
                    self.fwd.append(i)

    def orig(self, x):
        return peel(x, [ADD(self.chain, C(o)) for o in (0, 8, 16, 24)] if self.chain is not None else [])

    def node(self, i):
        a = self.g.val(i.ops[0])
        return [self.orig(self.g.before(i, ADD(a, C(o)), 8)) for o in (0, 8, 16)]

    def own_node(self):
        return [LD(ADD(self.chain, C(o))) for o in (0, 8, 16)]


def dom(v):
    return (0, 1)


def all_ids(fn):
    return {i.id for i in fn.order if i.op in ("call", "load", "phi")}


def looped(fn, i):
    return fn.can_reach(i, i)


def one_of(c, rule, fn, g, evs, what):
    """exactly one of the events happens on every path"""
    for i in evs:
        if looped(fn, i):
            c.bad(rule, i, "%s can be reached more than once" % what)
            return False
    for a in range(len(evs)):
        for b in range(a + 1, len(evs)):
            both = AND(g.guard(evs[a]), g.guard(evs[b]))
            if both is not ZERO and not excl(both):
                c.bad(rule, evs[b], "%s happens twice on a path (also at %s)" % (what, evs[a].where()))
                return False
    if not evs:
        c.bad(rule, fn, "%s never happens" % what)
        return False
    return c.implies(rule, evs[0], ONE, OR(*[g.guard(i) for i in evs]), dom, "on some path %s does not happen" % what)


def excl(f):
    for row, v in tabulate([f], dom):
        if v[0]:
            return False
    return True


def ret_is(c, rule, fn, g, i, msg):
    """the caller gets the result of call i"""
    return c.implies(rule, i, g.guard(i), EQ(g.ret(), g.val(("i", i.id)), 32), lambda v: (0, 1, 2), msg)


def dispatch(c):
    """C14: how a packet travels along a stack of middleware"""
    c.rule("chain-step", "each stage gets the packet, its own state, and the rest of the chain; stages without a function for the phase are skipped")
    c.rule("chain-one", "every stage hands the packet on exactly once, or (under the lock) gives up, unlocking")
    c.rule("chain-result", "what the rest of the chain returned is what the caller gets")
    c.rule("chain-start", "a write starts at the writer itself, without the lock")
    w = Writers(c)
    fn = c.use(w.view[w.D])
    g = G(fn)
    a0, pkt = mk("arg", 0), mk("arg", 1)
    curr, head, tlk = LD(a0), LD(ADD(a0, C(8))), LD(ADD(a0, C(16)))
    o = w.offs.offset
    act = o("a0_writer_s._action")
    P, L = LD(ADD(curr, C(act + 16))), LD(ADD(curr, C(act + 24)))
    nxt = LD(ADD(curr, C(o("a0_writer_s._next"))))
    UD = LD(ADD(curr, C(act)))
    unl, nop, nol = EQ(tlk, ZERO), EQ(P, ZERO), EQ(L, ZERO)
    evs = []
    for i in fn.allcalls():
        if i.callee and i.callee != w.D:
            continue
        evs.append(i)
        G_ = g.guard(i)
        t = mk("f", w.D) if i.callee else g.val(i.fptr)

        def chain_ok(k, with_fn):
            a = g.val(i.ops[k])
            want = [nxt, head, tlk] + ([mk("f", w.D)] if with_fn else [])
            return all(g.before(i, ADD(a, C(8 * n)), 8) is x or same(g.before(i, ADD(a, C(8 * n)), 8), x, G_) for n, x in enumerate(want))
        if t.op == "f" and t.a[0] == w.D:
            c.expect(chain_ok(0, False) and g.val(i.ops[1]) is pkt, "chain-step", i, "the packet is not handed to the next stage with the same head and lock")
            c.implies("chain-step", i, G_, OR(AND(unl, nop), AND(NOT(unl), nol)), dom, "a stage is skipped although it has a function for this phase")
        elif t is P:
            c.expect(g.val(i.ops[0]) is UD and g.val(i.ops[1]) is pkt and chain_ok(2, True), "chain-step", i, "a stage is not given its own state, the packet and the rest of the chain")
            c.implies("chain-step", i, G_, AND(unl, NOT(nop)), dom, "the unlocked function of a stage runs under the lock, or is missing")
        elif t is L:
            c.expect(g.val(i.ops[0]) is UD and same(g.val(i.ops[1]), tlk, G_) and g.val(i.ops[2]) is pkt and chain_ok(3, True), "chain-step", i, "a stage is not given its own state, the lock, the packet and the rest of the chain")
            c.implies("chain-step", i, G_, AND(NOT(unl), NOT(nol)), dom, "the locked function of a stage runs without the lock, or is missing")
        else:
            c.bad("chain-step", i, "the packet goes to something other than the stages of the chain")
        ret_is(c, "chain-result", fn, g, i, "the result of the rest of the chain is lost")
    one_of(c, "chain-one", fn, g, evs, "handing the packet on")

    v = c.prog.view(["a0_writer_write"], w.keep + [w.D])
    fn = c.use(v["a0_writer_write"])
    g = G(fn)
    cs = [i for i in fn.allcalls() if i.callee == w.D or is_indirect(i)]
    if one_of(c, "chain-start", fn, g, cs, "the dispatch of the packet"):
        i = cs[0]
        a = g.val(i.ops[0])
        n = [g.before(i, ADD(a, C(k)), 8) for k in (0, 8, 16)]
        c.expect(n[0] is mk("arg", 0) and n[1] is mk("arg", 0) and n[2] is ZERO and g.val(i.ops[1]) is mk("arg", 1), "chain-start", i,
                 "a write does not start with the whole stack of this writer, unlocked, and the caller's packet")
        ret_is(c, "chain-result", fn, g, i, "the result of the write is lost")
    return w


def same(x, y, given):
    """x and y are equal wherever `given` holds"""
    if x is y:
        return True
    for row, v in tabulate([given, EQ(x, y)], dom):
        if v[0] and not v[1]:
            return False
    return True


def base(c):
    """C14: the last stage, which locks, serialises, commits and unlocks"""
    c.rule("append-lock", "the packet goes through the locked phase of the whole stack under one hold of the lock")
    c.rule("append-once", "under the lock the packet is serialised once, committed only if that worked, and the lock released once, last")
    c.rule("append-err", "a failure of the lock, serialisation or commit reaches the caller")
    w = Writers(c)
    names = [w.fname(x) for x in w.base]
    if names[1] not in w.steps or names[2] not in w.steps:
        c.bad("append-lock", w.offs["a0_writer_init"], "a writer is left without its appending stage")
        return
    s = Step(w, names[1])
    fn, g = s.fn, s.g
    locks = [i for i in fn.allcalls() if (i.callee or "").startswith("a0_transport_lock")]
    if one_of(c, "append-lock", fn, g, locks, "taking the lock"):
        lk = locks[0]
        c.expect(lk.callee == "a0_transport_lock" and g.val(lk.ops[0]) is s.ud, "append-lock", lk, "the lock is not that of the writer's own transport")
        held = EQ(g.val(("i", lk.id)), ZERO, 32)
        for i in s.fwd:
            n = s.node(i)
            hd = LD(ADD(s.chain, C(8)))
            tk = g.before(i, g.val(lk.ops[1]), 8)
            c.expect(n[0] is hd and n[1] is hd and (n[2] is tk or n[2].op == "out" and n[2].a[0] == lk.id) and g.val(i.ops[1]) is s.pkt, "append-lock", i,
                     "after locking, the packet does not go through the locked phase of the whole stack from its head with this lock")
            c.implies("append-lock", i, g.guard(i), held, dom, "the locked phase runs although the lock was not obtained")
            ret_is(c, "append-err", fn, g, i, "the result of the locked phase is lost")
        one_of(c, "append-lock", fn, g, s.fwd, "the locked phase") if not s.fwd else None
        if s.fwd:
            c.implies("append-lock", s.fwd[0], held, OR(*[g.guard(i) for i in s.fwd]), dom, "the lock is taken but the locked phase never runs")
        c.implies("append-err", lk, NOT(held), NOT(EQ(g.ret(), ZERO, 32)), lambda v: (0, 1), "failing to get the lock is not reported")

    s = Step(w, names[2])
    fn, g = s.fn, s.g
    sers = [i for i in fn.calls("a0_packet_serialize")]
    for i in sers:
        bv = i.raw.get("byval") or []
        ok = bool(bv)
        if ok:
            a = g.val(i.ops[bv[0]])
            size = w.offs.sizeof("a0_packet_s")
            # ids are arrays of bytes: compare the words that hold pointers and sizes, and the first byte
            for off in [w.offs.offset("a0_packet_s.headers_block") + k for k in (0, 8, 16)] + [w.offs.offset("a0_packet_s.payload") + k for k in (0, 8)]:
                x, y = g.before(i, ADD(a, C(off)), 8), g.before(i, ADD(s.pkt, C(off)), 8)
                ok = ok and (a is s.pkt or x is y)
        c.expect(ok, "append-once", i, "what is serialised is not the packet that came down the chain")
        al = [k for k in fn.calls("a0_transport_allocator")]
        ok = False
        for k in al:
            p = g.val(k.ops[0])
            ok = ok or g.before(k, p, 8) is s.tlk and fn.dominates(k, i)
        c.expect(ok, "append-once", i, "the message is not allocated in the transport that is locked")

    def on_inst(st, i, ctx):
        nser, ncom, nunl = st
        if i.is_call("a0_packet_serialize"):
            if nunl:
                c.bad("append-once", i, "the message is serialised after the lock was released")
            return (min(nser + 1, 2), ncom, nunl)
        if i.is_call("a0_transport_commit"):
            z = [ctx.nonzero(("i", k.id)) for k in sers]
            if nser != 1 or nunl or not any(x is False for x in z):
                c.bad("append-once", i, "the message is committed without having been serialised successfully under this lock")
            c.expect(ctx.shape(i.ops[0]) == ("arg", 1), "append-once", i, "something other than the locked transport is committed")
            return (nser, min(ncom + 1, 2), nunl)
        if i.is_call("a0_transport_unlock"):
            return (nser, ncom, min(nunl + 1, 2))
        return st

    def on_ret(st, i, ctx):
        nser, ncom, nunl = st
        c.expect(nser == 1, "append-once", i, "a packet under the lock is serialised %s" % ("never" if not nser else "more than once"), e.path())
        c.expect(nunl == 1, "append-once", i, "the lock is released %s" % ("never" if not nunl else "twice"), e.path())
        failed = any(ctx.nonzero(("i", k.id)) for k in sers)
        if not failed:
            c.expect(ncom == 1, "append-once", i, "a serialised message is committed %s" % ("never" if not ncom else "twice"), e.path())
        r = ctx.expr(i.ops[0])
        evs = [("i", k.id) for k in sers] + [("i", k.id) for k in fn.calls("a0_transport_commit")]
        nz = ctx.nonzero(i.ops[0])
        src = [ctx.expr(x) for x in evs]
        bad = False
        for x in evs:
            t = ctx.nonzero(x)
            if t and not (nz or r == ctx.expr(x)):
                bad = True
        if ncom and not failed:
            cm = [ctx.expr(("i", k.id)) for k in fn.calls("a0_transport_commit")]
            if not (nz or r in cm or any(ctx.truth(mk_cmp("eq", x, ("c", 0))) for x in cm)):
                bad = True
        c.expect(not bad, "append-err", i, "a failure to serialise or commit is not returned", e.path())
        if not failed and not bad and ncom and all(ctx.nonzero(x) is False for x in evs if ctx.nonzero(x) is not None):
            c.expect(nz is not True, "append-err", i, "a successful write is reported as a failure", e.path())
    e = Explorer(fn, on_inst=on_inst, on_ret=on_ret, track=all_ids(fn))
    run(c, e, (0, 0, 0))


def stages(c):
    """C14: every provided stage forwards exactly once, or unlocks and gives up"""
    c.rule("stage-forward", "a stage hands on the packet it was given, along its own chain, exactly once")
    c.rule("stage-giveup", "a stage that does not hand the packet on does so only under the lock, and releases it exactly once")
    c.rule("stage-result", "a stage returns what the rest of the chain returned")
    w = Writers(c)
    skip = {w.fname(x) for x in w.base + w.comp}
    names = [n for n in w.steps if n not in skip]
    if not names:
        raise AnalysisBroken("no middleware stages found")
    for n in names:
        s = Step(w, n)
        fn, g = s.fn, s.g
        for i in fn.allcalls():
            if is_indirect(i) and i not in s.fwd:
                c.bad("stage-forward", i, "%s calls something other than the rest of its chain" % n)
        for i in s.fwd:
            nd = s.node(i)
            own = s.own_node()
            ok = all(x is y or k == 2 and s.locked and x is s.tlk for k, (x, y) in enumerate(zip(nd, own))) and g.val(i.ops[1]) is s.pkt
            c.expect(ok, "stage-forward", i, "%s does not hand its packet to the next stage of its own chain" % n)

        def on_inst(st, i, ctx):
            f, u = st
            if i in s.fwd:
                return (min(f + 1, 2), u)
            if i.is_call("a0_transport_unlock"):
                if f:
                    c.bad("stage-giveup", i, "%s releases the lock although the packet was handed on, which releases it too" % n, e.path())
                return (f, min(u + 1, 2))
            if i.is_call("a0_transport_commit", "a0_transport_alloc", "a0_transport_lock"):
                c.bad("stage-giveup", i, "%s changes the transport itself" % n)
            return st

        def on_ret(st, i, ctx):
            f, u = st
            if s.locked:
                if f == 0:
                    c.expect(u == 1, "stage-giveup", i, "%s gives up %s" % (n, "and keeps the lock" if not u else "and releases the lock twice"), e.path())
                else:
                    c.expect(f == 1 and u == 0, "stage-forward", i, "%s hands the packet on %s" % (n, "twice" if f > 1 else "after releasing the lock"), e.path())
            else:
                c.expect(f == 1, "stage-forward", i, "%s %s" % (n, "drops the packet" if not f else "hands the packet on twice"), e.path())
            if f == 1:
                r = ctx.expr(i.ops[0])
                res = [k for k in s.fwd]
                ok = any(r == ctx.expr(("i", k.id)) for k in res) or ctx.nonzero(i.ops[0]) or any(ctx.nonzero(("i", k.id)) is False for k in res)
                c.expect(ok, "stage-result", i, "%s loses the result of the rest of the chain" % n, e.path())
        e = Explorer(fn, on_inst=on_inst, on_ret=on_ret, track=all_ids(fn))
        run(c, e, (0, 0))


def stack(c):
    """C14: composing, wrapping, pushing and closing"""
    c.rule("stack-compose", "a composed stage runs the first, then the second, then the rest of the chain, in both phases")
    c.rule("stack-close", "closing releases the state of every stage once")
    c.rule("stack-build", "initialising, wrapping and pushing put each stage where the documentation says")
    w = Writers(c)
    o = w.offs.offset
    v = c.prog.view(["a0_middleware_compose", "a0_writer_init", "a0_writer_wrap", "a0_writer_push", "a0_writer_close"], w.keep)
    fn = c.use(v["a0_middleware_compose"])
    g = G(fn)
    names = [w.fname(x) for x in w.comp]
    for slot, x in ((1, w.comp[1]), (2, w.comp[2])):
        parts = [LD(ADD(mk("arg", k), C(8 + 8 * slot))) for k in (0, 1)]
        if x.op == "sel":
            c.implies("stack-compose", fn, EQ(x, ZERO), AND(*[EQ(y, ZERO) for y in parts]), lambda y: (1,) if y.op == "f" else (0, 1),
                      "a composed stage leaves out a part that has something to do in the %s phase" % ("locked" if slot == 2 else "unlocked"))
    heap = g.at_ret(mk("arg", 2), 8)
    heap = next((x for x in nodes(heap) if x.op == "call"), heap)
    F = S = None
    if heap.op == "call":
        for b in range(0, 64, 8):
            if all(g.at_ret(ADD(heap, C(b + k)), 8) is LD(ADD(mk("arg", 0), C(k))) for k in (0, 8, 16, 24)):
                F = b
            if all(g.at_ret(ADD(heap, C(b + k)), 8) is LD(ADD(mk("arg", 1), C(k))) for k in (0, 8, 16, 24)):
                S = b
    if not c.expect(F is not None and S is not None, "stack-compose", fn, "a composed stage does not keep both of its parts whole"):
        return
    for slot, n in ((1, names[1]), (2, names[2])):
        if n not in w.steps or (w.steps[n] == "locked") != (slot == 2):
            c.bad("stack-compose", fn, "a composed stage has no function for the %s phase" % ("locked" if slot == 2 else "unlocked"))
            continue
        s = Step(w, n)
        f2, g2 = s.fn, s.g
        if not one_of(c, "stack-compose", f2, g2, s.fwd, "running the composed stages"):
            continue
        for i in s.fwd:
            nd = s.node(i)
            ok = nd[1] is LD(ADD(s.chain, C(8))) and (nd[2] is LD(ADD(s.chain, C(16))) or s.tlk is not None and nd[2] is s.tlk) and g2.val(i.ops[1]) is s.pkt
            act, nx = o("a0_writer_s._action"), o("a0_writer_s._next")

            def cont(a, off):
                return s.orig(g2.before(i, ADD(a, C(off)), 8))
            ok = ok and all(cont(nd[0], act + k) is LD(ADD(s.ud, C(F + k))) for k in (0, 8, 16, 24))
            w2 = cont(nd[0], nx)
            ok = ok and all(cont(w2, act + k) is LD(ADD(s.ud, C(S + k))) for k in (0, 8, 16, 24)) and cont(w2, nx) is LD(s.chain)
            c.expect(ok, "stack-compose", i, "%s does not run the first, then the second, then the rest with the same head and lock" % n)
            ret_is(c, "stack-compose", f2, g2, i, "the result of the composed stages is lost")
    # closing a composed stage
    cn = names[0]
    vc = c.prog.view([cn] if cn and cn != "?" else [], w.keep)
    f2 = vc.get(cn) if cn else None
    if f2 is None:
        c.bad("stack-close", fn, "a composed stage cannot be closed")
    else:
        c.use(f2)
        closing(c, f2, {"first": ADD(mk("arg", 0), C(F)), "second": ADD(mk("arg", 0), C(S))}, free=mk("arg", 0))
    closing(c, c.use(v["a0_writer_close"]), {"writer's": ADD(mk("arg", 0), C(o("a0_writer_s._action")))}, free=None)
    # the writer's own stage
    fn = c.use(v["a0_writer_init"])
    g = G(fn)
    act, nx = o("a0_writer_s._action"), o("a0_writer_s._next")
    ini = fn.calls("a0_transport_init")
    ok = len(ini) == 1 and all((i.raw.get("byval") or []) for i in ini)
    if c.expect(ok, "stack-build", fn, "a writer is not given a transport"):
        i = ini[0]
        suc = EQ(g.val(("i", i.id)), ZERO, 32)
        a = g.val(i.ops[i.raw["byval"][0]])
        c.expect(all(g.before(i, ADD(a, C(k)), 8) is g.before(i, ADD(mk("arg", 1), C(k)), 8) for k in (0, 8, 16)) or a is mk("arg", 1), "stack-build", i, "the transport is not that of the given arena")

        def fld(off):
            return subst(g.at_ret(ADD(mk("arg", 0), C(off)), 8), {g.val(("i", i.id)): ZERO})
        heap = fld(act)
        size = v.sizeof("a0_transport_s")
        c.expect(heap.op == "call", "stack-build", fn, "a writer's transport does not outlive its initialisation")
        if heap.op == "call":
            ok = all(any(x.op == "out" and x.a[0] == i.id for x in [subst(g.at_ret(ADD(heap, C(k)), 8), {g.val(("i", i.id)): ZERO})]) or g.val(i.ops[0]) is heap for k in (0, 24, 32))
            c.expect(ok, "stack-build", fn, "a writer keeps something other than the transport it opened")
        c.expect(fld(nx) is ZERO, "stack-build", fn, "a new writer is chained to another")
        c.implies("stack-build", i, suc, EQ(g.ret(), ZERO, 32), lambda v: (0, 1), "a writer that opened is reported as failed")
        c.implies("stack-build", i, NOT(suc), NOT(EQ(g.ret(), ZERO, 32)), lambda v: (0, 1), "a writer that failed to open is reported as fine")
        b = w.fname(w.base[0])
        vb = c.prog.view([b] if b and b != "?" else [], w.keep)
        fb = vb.get(b) if b else None
        if fb is None:
            c.bad("stack-close", fn, "a writer's own stage cannot be closed")
        else:
            closing(c, c.use(fb), {}, free=mk("arg", 0))
    fn = c.use(v["a0_writer_wrap"])
    g = G(fn)
    out = mk("arg", 2)
    c.expect(all(g.at_ret(ADD(out, C(act + k)), 8) is LD(ADD(mk("arg", 1), C(k))) for k in (0, 8, 16, 24)) and g.at_ret(ADD(out, C(nx)), 8) is mk("arg", 0) and g.ret() is ZERO,
             "stack-build", fn, "wrapping does not put the new stage in front of the wrapped writer")
    fn = c.use(v["a0_writer_push"])
    g = G(fn)
    cs = fn.calls("a0_middleware_compose")
    if one_of(c, "stack-build", fn, g, cs, "composing the new stage with the writer's"):
        i = cs[0]
        me = ADD(mk("arg", 0), C(act))

        def bc(k, off):
            return g.before(i, ADD(g.val(i.ops[k]), C(off)), 8)
        ok = all(bc(0, k) is LD(ADD(mk("arg", 1), C(k))) and bc(1, k) is LD(ADD(me, C(k))) for k in (0, 8, 16, 24))
        c.expect(ok, "stack-build", i, "pushing does not put the new stage in front of the writer's")
        t = g.val(i.ops[2])
        if t is not me:
            c.expect(all((lambda x: any(y.op == "out" and y.a[0] == i.id for y in nodes(x)))(g.at_ret(ADD(me, C(k)), 8)) for k in (0, 8, 16, 24)), "stack-build", i, "the composed stage is not stored in the writer")
        else:
            c.ok("stack-build")
        ret_is(c, "stack-build", fn, g, i, "a failure to push is not reported")


def closing(c, fn, members, free):
    """each member's close function is called once with its state if there is one; the container is freed after that"""
    g = G(fn, clobbers=lambda callee, f, a: False)
    slots = {}
    for nm, a in members.items():
        slots[nm] = (LD(ADD(a, C(8))), LD(a))
    calls = {}
    for i in fn.allcalls():
        if is_indirect(i):
            t = g.val(i.fptr)
            for nm, (cl, ud) in slots.items():
                if t is cl:
                    calls[i.id] = nm
                    c.expect(g.val(i.ops[0]) is ud, "stack-close", i, "the %s stage is closed with another stage's state" % nm)
            if i.id not in calls:
                c.bad("stack-close", i, "something other than a stage's close function is called")
    fe = {nm: [fn.expr(("i", i.id)) for b in fn.blocks for i in b if i.op == "load" and g.val(("i", i.id)) is cl] for nm, (cl, ud) in slots.items()}

    def on_inst(st, i, ctx):
        done, freed = st
        if i.id in calls:
            nm = calls[i.id]
            if freed:
                c.bad("stack-close", i, "the %s stage is closed after its container was freed" % nm)
            if nm in done:
                c.bad("stack-close", i, "the %s stage is closed twice" % nm, e.path())
            return (done | {nm}, freed)
        if i.is_call("free"):
            if free is not None and g.val(i.ops[0]) is free:
                if freed:
                    c.bad("stack-close", i, "the state is freed twice", e.path())
                return (done, True)
        return st

    def on_ret(st, i, ctx):
        done, freed = st
        for nm in slots:
            if nm not in done:
                absent = any(ctx.truth(mk_cmp("eq", x, ("c", 0))) for x in fe[nm])
                c.expect(absent, "stack-close", i, "the %s stage is not closed" % nm, e.path())
            else:
                c.ok("stack-close")
        if free is not None:
            c.expect(freed, "stack-close", i, "the state is not freed", e.path())
        for k in calls:
            if calls[k] in done and ctx.nonzero(("i", k)) and len(slots) == 1:
                c.expect(ctx.nonzero(i.ops[0]) or ctx.expr(i.ops[0]) == ctx.expr(("i", k)), "stack-close", i, "a failure to close is not reported", e.path())
    e = Explorer(fn, on_inst=on_inst, on_ret=on_ret, track=all_ids(fn))
    run(c, e, (frozenset(), False))


def providers(w):
    """public functions that return a middleware: name -> (state, close, process, process_locked) as values, and their graphs"""
    v = w.c.prog.view(w.keep, w.keep)
    names = [n for n in w.keep if v.get(n) is not None and any(str(p.get("sret", "")).endswith("a0_middleware_s") for p in v[n].raw["params"])]
    if not names:
        raise AnalysisBroken("no function returns a middleware")
    v = w.c.prog.view(names, w.keep)
    out = {}
    for n in names:
        g = G(v[n])
        out[n] = (g, [g.at_ret(ADD(mk("arg", 0), C(k)), 8) for k in (0, 8, 16, 24)])
    return out


def state_release(c):
    """C14: what a stage allocates it frees when closed"""
    c.rule("stage-release", "state a stage allocates is freed by its close function")
    w = Writers(c)
    for n, (g, (ud, cl, p, l)) in providers(w).items():
        if ud.op != "call":
            c.ok("stage-release")
            continue
        f = w.fname(cl)
        if f is None or f == "?":
            c.bad("stage-release", g.fn, "%s allocates state that nothing frees" % n)
            continue
        v = c.prog.view([f], w.keep)
        fn = c.use(v[f])
        g2 = G(fn)
        fr = [i for i in fn.calls("free") if g2.val(i.ops[0]) is mk("arg", 0)]
        one_of(c, "stage-release", fn, g2, fr, "freeing the state")


STD = {
    "a0_time_mono": ("mono", "locked"),
    "a0_time_wall": ("wall", None),
    "a0_writer_id": ("id", None),
    "a0_writer_seq": ("count", None),
    "a0_transport_seq": ("tseq", "locked"),
}


def string_at(v, x):
    """the text a constant address points at"""
    if x.op == "g":
        return v.string(("g", x.a[0], 0))
    return None


def added(c, w, name):
    """[(key, value, step, forward)] of the headers a step adds; complains when it loses the ones it was given"""
    s = Step(w, name)
    g = s.g
    hb = w.offs.offset("a0_packet_s.headers_block")
    out = []
    for i in s.fwd:
        cur = [g.before(i, ADD(s.pkt, C(hb + k)), 8) for k in (0, 8, 16)]
        org = [LD(ADD(s.pkt, C(hb + k))) for k in (0, 8, 16)]
        if all(a is b for a, b in zip(cur, org)):
            c.ok("header-keep")
            continue
        if cur[1].op != "c" or not 0 < cur[1].a[0] < 64:
            c.bad("header-keep", i, "%s hands on a block of headers of unknown size" % name)
            continue
        prev = [g.before(i, ADD(cur[2], C(k)), 8) for k in (0, 8, 16)]
        c.expect(all(a is b for a, b in zip(prev, org)), "header-keep", i, "%s does not keep the headers the packet already had" % name)
        for k in range(cur[1].a[0]):
            out.append((string_at(w.view, g.before(i, ADD(cur[0], C(16 * k)), 8)), g.before(i, ADD(cur[0], C(16 * k + 8)), 8), s, i))
    return out


def headers(c):
    """C15: the standard headers"""
    c.rule("header-keep", "adding a header keeps all headers the packet had")
    c.rule("header-set", "the standard headers are the five documented ones, each once")
    c.rule("header-value", "each header carries what it is named for")
    c.rule("header-locked", "the transport's count and the monotonic time are taken under the lock")
    w = Writers(c)
    prov = providers(w)
    v = c.prog.view(["a0_add_standard_headers"], w.keep)
    fn = c.use(v["a0_add_standard_headers"])
    g = G(fn)
    comp = {i.id: i for i in fn.calls("a0_middleware_compose")}
    made = {i.id: i for i in fn.allcalls() if i.callee in prov}
    got = []
    work = [g.at_ret(mk("arg", 0), 8)]
    n = 0
    while work and n < 100:
        n += 1
        x = work.pop()
        if x.op == "clob" and (x.a[0] in comp or x.a[0] in made):
            # a call that makes another stage in the same array
            i = comp.get(x.a[0]) or made[x.a[0]]
            d = ADD(g.val(i.ops[2 if x.a[0] in comp else 0]), x.a[1], 1, -1)
            if d.op == "c" and min(d.a[0], 2**64 - d.a[0]) >= 32:
                work.append(g.before(i, x.a[1], 8))
                continue
        off = x.a[2] if x.op == "out" and (x.a[0] in comp or x.a[0] in made) else 0
        off = off if isinstance(off, int) else off.a[0] if off.op == "c" else 0
        if not 0 <= off < 32:
            i = comp.get(x.a[0]) or made[x.a[0]]
            work.append(g.before(i, ADD(g.val(i.ops[x.a[1]]), C(off)), 8))
            continue
        if x.op in ("out", "clob") and x.a[0] in comp:
            i = comp[x.a[0]]
            if x.op == "clob" and g.val(i.ops[2]) is not x.a[1]:
                c.bad("header-set", i, "the composed headers are lost")
                continue
            for k in (0, 1):
                work.append(g.before(i, g.val(i.ops[k]), 8))
        elif x.op in ("out", "clob") and x.a[0] in made:
            got.append(made[x.a[0]].callee)
        else:
            c.bad("header-set", fn, "the standard headers contain a stage of unknown origin")
    keys = {}
    for p in got:
        pg, (ud, cl, pr, lk) = prov[p]
        c.use(pg.fn)
        for slot, x in (("plain", pr), ("locked", lk)):
            f = w.fname(x)
            if f is None:
                continue
            if f not in w.steps or (w.steps[f] == "locked") != (slot == "locked"):
                c.bad("header-value", pg.fn, "%s has something else in the place of a processing function" % p)
                continue
            for key, val, s, i in added(c, w, f):
                keys.setdefault(key, []).append((val, s, i, slot, pg, ud))
    # other stages must keep the headers too
    for f in w.steps:
        if f not in {w.fname(x) for x in w.base + w.comp}:
            added(c, w, f)
    for key, (kind, slot) in STD.items():
        l = keys.get(key, [])
        if not c.expect(len(l) == 1, "header-set", fn, "the header %s is added %s" % (key, "never" if not l else "%d times" % len(l))):
            continue
        val, s, i, sl, pg, ud = l[0]
        if slot:
            c.expect(sl == slot, "header-locked", s.fn, "%s is determined before the lock is taken" % key)
        c.expect(value_ok(c, kind, val, s, i, pg, ud), "header-value", s.fn, "%s does not carry what its name says" % key)
    for key in keys:
        c.expect(key in STD, "header-set", fn, "an undocumented header %s is added" % key)


def value_ok(c, kind, val, s, i, pg, ud):
    g, fn = s.g, s.fn

    def conv(name):
        """the conversion call whose text this is"""
        for k in fn.calls(name):
            if fn.dominates(k, i):
                yield k
    if kind in ("mono", "wall"):
        for k in conv("a0_time_%s_str" % kind):
            t = g.val(k.ops[0])
            if g.val(k.ops[-1]) is val and t.op == "out" and fn.insts[t.a[0]].is_call("a0_time_%s_now" % kind) and g.val(k.ops[1]) is g.before(k, ADD(g.val(fn.insts[t.a[0]].ops[0]), C(8)), 8):
                return True
        return False
    if kind == "id":
        if val is not s.ud or ud.op != "call":
            return False
        m = pg.fn.insts[ud.a[0]]
        ids = [k for k in pg.fn.calls("a0_uuidv4") if pg.val(k.ops[0]) is ud and pg.guard(k) is ONE]
        return bool(ids) and m.is_call("malloc") and pg.val(m.ops[0]).op == "c" and pg.val(m.ops[0]).a[0] >= 37
    for k in conv("a0_u64_to_str"):
        if not (val.op == "out" and val.a[0] == k.id and val.a[1] == 3):
            continue
        # the text is terminated
        if g.before(i, g.val(k.ops[2]), 1) is not ZERO and g.before(k, g.val(k.ops[2]), 1) is not ZERO:
            continue
        x = g.val(k.ops[0])
        if kind == "count":
            m = fn.insts.get(x.a[0]) if x.op == "rmw" else None
            if m is None or m.raw.get("rmw") != "add" or g.val(m.ops[1]) is not ONE or g.val(m.ops[0]) is not s.ud or g.guard(m) is not ONE or ud.op != "call":
                continue
            return pg.at_ret(ud, 8) is ZERO
        if kind == "tseq":
            m = fn.insts.get(x.a[0]) if x.op == "out" else None
            return m is not None and m.is_call("a0_transport_seq_high") and g.val(m.ops[0]) is s.tlk
    return False


def endpoints(c):
    """C15: every endpoint that sends has the standard headers"""
    c.rule("endpoint-headers", "every endpoint's writer has the standard headers by the time the endpoint is ready")
    w = Writers(c)
    v = c.prog.view(w.keep, w.keep)
    n = 0
    for name in w.keep:
        fn = v.get(name)
        if fn is None or not fn.calls("a0_writer_init"):
            continue
        n += 1
        c.use(fn)
        g = G(fn)

        def on_inst(st, i, ctx):
            if i.is_call("a0_writer_init"):
                return st | {(ctx.shape(i.ops[0]), False)}
            if i.is_call("a0_writer_push"):
                sh = ctx.shape(i.ops[0])
                k = (i.raw.get("byval") or [1])[0]
                x = g.before(i, g.val(i.ops[k]), 8)
                if x.op == "out" and fn.insts[x.a[0]].is_call("a0_add_standard_headers"):
                    return frozenset(y for y in st if y != (sh, False)) | {(sh, True)}
            return st

        def on_ret(st, i, ctx):
            if ctx.nonzero(i.ops[0]):
                return
            c.expect(st and all(d for _, d in st), "endpoint-headers", i, "%s is ready with a writer that adds no standard headers" % name, e.path())
        e = Explorer(fn, on_inst=on_inst, on_ret=on_ret)
        run(c, e, frozenset())
    if n == 0:
        raise AnalysisBroken("no endpoint opens a writer")


def if_empty(c):
    """C16: write only if empty"""
    c.rule("ifempty-locked", "whether the transport is empty is decided under the lock, in the same hold as the write")
    c.rule("ifempty-write", "the message is handed on exactly when the transport is empty")
    c.rule("ifempty-flag", "the caller's flag says whether the message was written")
    w = Writers(c)
    prov = providers(w)
    if "a0_write_if_empty" not in prov:
        raise AnalysisBroken("a0_write_if_empty not found")
    pg, (ud, cl, pr, lk) = prov["a0_write_if_empty"]
    c.expect(w.fname(pr) is None and ud is mk("arg", 1), "ifempty-locked", pg.fn, "write-if-empty does something before the lock is taken, or forgets its flag")
    f = w.fname(lk)
    if f not in w.steps:
        c.bad("ifempty-locked", pg.fn, "write-if-empty decides nothing under the lock")
        return
    s = Step(w, f)
    fn = s.fn
    bools = {}
    for given in (False, True):
        for empty in (False, True):
            def load(st, i, ctx):
                cells = dict(st[1])
                a = ctx.shape(i.ops[0])
                if a in cells and cells[a] in (0, 1):
                    x = bool(cells[a])
                    e = fn.expr(("i", i.id))
                    return Assume(st, *([(is_zero(fn, i), not x), (mk_cmp("eq", ("load", i.id, fn.field_of(i)), ("c", 0)), not x)]))
                return st

            def on_inst(st, i, ctx):
                ev, cells = st
                if i.op == "load":
                    return load(st, i, ctx)
                if i.op == "store":
                    a = ctx.shape(i.ops[1])
                    x = ctx.const(i.ops[0])
                    if x is None:
                        nz = ctx.nonzero(i.ops[0])
                        x = None if nz is None else int(nz)
                    return (ev, frozenset([(k, y) for k, y in cells if k != a] + [(a, x)]))
                if i.is_call("a0_transport_empty"):
                    c.expect(ctx.shape(i.ops[0]) == ("arg", 1) and ctx.shape(i.ops[1])[0] in ("arg", "alloca"), "ifempty-locked", i, "emptiness is not that of the locked transport")
                    a = ctx.shape(i.ops[1])
                    if "fwd" in ev or "unl" in ev:
                        c.bad("ifempty-locked", i, "emptiness is determined too late")
                    st = (ev + ("emp",), frozenset([(k, y) for k, y in cells if k != a] + [(a, int(empty))]))
                    return Assume(st, (is_zero(fn, i), True))
                if i.is_call("a0_transport_unlock"):
                    return (ev + ("unl",), cells)
                if i in s.fwd:
                    ok = "emp" in ev and empty
                    c.expect("unl" not in ev, "ifempty-locked", i, "the lock is let go between finding the transport empty and the write", e.path())
                    c.expect(ok, "ifempty-write", i, "the message is written although the transport is not empty, or without asking", e.path())
                    return [Assume((ev + ("fwd",), cells), (is_zero(fn, i), True)), Assume((ev + ("fail",), cells), (is_zero(fn, i), False))]
                return st

            def on_ret(st, i, ctx):
                ev, cells = st
                flag = dict(cells).get(("arg", 0))
                if empty:
                    c.expect("fwd" in ev or "fail" in ev, "ifempty-write", i, "the message is not written although the transport is empty", e.path())
                elif not ("fwd" in ev or "fail" in ev):
                    c.expect(ctx.nonzero(i.ops[0]) is False, "ifempty-write", i, "finding the transport non-empty is reported as a failure", e.path())
                if given:
                    want = int("fwd" in ev)
                    c.expect(flag == want, "ifempty-flag", i, "the caller is told the message was %s" % ("not written although it was" if want else "written although it was not"), e.path())
            e = Explorer(fn, on_inst=on_inst, on_ret=on_ret, track=all_ids(fn) | {i.id for i in fn.order if i.op == "select"})
            arg = ("arg", 0)
            first = fn.order[0]
            init = ((), frozenset())
            run_given(c, e, fn, init, (mk_cmp("eq", arg, ("c", 0)), not given))


def run_given(c, e, fn, init, cond):
    """explore with a condition on the arguments known from the start"""
    inner = e.on_inst
    first = {"id": fn.blocks[0][0].id if hasattr(fn.blocks[0][0], "id") else None}
    started = fn.blocks[0][0]

    def on_inst(st, i, ctx):
        r = inner(st, i, ctx)
        if i is started:
            if isinstance(r, Assume):
                return Assume(r.state, *(list(r.conds) + [cond]))
            return Assume(r, cond)
        return r
    e.on_inst = on_inst
    run(c, e, init)


def merge(c):
    """C16: merge-patch"""
    c.rule("merge-locked", "the patch is applied under the lock, in the same hold as the write")
    c.rule("merge-source", "the merged value comes from the newest stored message and the given patch, in that order")
    c.rule("merge-result", "what is written is the merged value, or the patch itself if nothing is stored")
    c.rule("merge-fail", "if reading or merging fails nothing is written and the error is returned")
    w = Writers(c)
    prov = providers(w)
    if "a0_json_mergepatch" not in prov:
        raise AnalysisBroken("a0_json_mergepatch not found")
    pg, (ud, cl, pr, lk) = prov["a0_json_mergepatch"]
    f = w.fname(lk)
    c.expect(w.fname(pr) is None and f in w.steps, "merge-locked", pg.fn, "merging is not done in the locked phase only")
    if f not in w.steps:
        return
    s = Step(w, f)
    fn, g = s.fn, s.g
    o = w.offs.offset
    pay = o("a0_packet_s.payload")
    emp = [i for i in fn.calls("a0_transport_empty") if g.val(i.ops[0]) is s.tlk]
    if not c.expect(len(emp) >= 1, "merge-locked", fn, "emptiness of the transport is not determined"):
        return
    E = g.after(emp[0], g.val(emp[0].ops[1]), 1)
    is_empty = NOT(EQ(E, ZERO, 8))
    orig = [LD(ADD(s.pkt, C(pay + k))) for k in (0, 8)]

    def d(x):
        if x.op == "call" and fn.insts[x.a[0]].is_call("A0_MAKE_MSGERR"):
            return (2,)
        return (0, 1)
    for u in fn.calls("a0_transport_unlock"):
        after = [i for i in s.fwd if i.block == u.block and i.idx > u.idx or i.block in fn.reach()[u.block]]
        c.expect(not after, "merge-locked", u, "the lock is let go between reading the stored value and the write")
    for i in s.fwd:
        cur = [g.before(i, ADD(s.pkt, C(pay + k)), 8) for k in (0, 8)]
        G_ = g.guard(i)
        if all(a is b for a, b in zip(cur, orig)):
            c.implies("merge-result", i, G_, is_empty, d, "the patch itself is written although a value is stored")
            continue
        c.implies("merge-result", i, G_, NOT(is_empty), d, "a merged value is written although nothing is stored")
        wr = fn.insts.get(cur[0].a[0]) if cur[0].op == "call" else None
        ok = wr is not None and wr.is_call("yyjson_mut_write_opts") and cur[1] is g.before(i, g.val(wr.ops[3]), 8)
        if not c.expect(ok, "merge-result", i, "what is written is not the serialised result of the merge"):
            continue
        doc = g.val(wr.ops[0])
        root = g.before(wr, ADD(doc, C(o("yyjson_mut_doc.root"))), 8)
        mp = fn.insts.get(root.a[0]) if root.op == "call" else None
        if not c.expect(mp is not None and mp.is_call("yyjson_merge_patch") and g.val(mp.ops[0]) is doc, "merge-result", wr, "what is serialised is not the result of the merge"):
            continue
        docs = []
        for k in (1, 2):
            x = g.val(mp.ops[k])
            r = None
            if x.op in ("ld", "clob"):
                a = x.a[1] if x.op == "clob" else x.a[0]
                a = ADD(a, C(o("yyjson_doc.root")), 1, -1)
                r = fn.insts.get(a.a[0]) if a.op == "call" else None
            docs.append(r if r is not None and r.is_call("yyjson_read_opts", "yyjson_read") else None)
        if not c.expect(all(docs), "merge-source", mp, "the merge does not combine two parsed documents"):
            continue
        pl = [k for k in fn.calls("a0_flat_packet_payload") if any(x is g.before(docs[0], g.val(k.ops[-1]), 8) for x in [g.val(docs[0].ops[0])]) and g.val(docs[0].ops[1]) is g.before(docs[0], ADD(g.val(k.ops[-1]), C(8)), 8)]
        if c.expect(bool(pl), "merge-source", docs[0], "the document patched is not the stored payload"):
            k = pl[0]
            fr = [x for x in fn.calls("a0_transport_frame") if g.val(x.ops[0]) is s.tlk and fn.dominates(x, k)]
            ok = False
            for x in fr:
                p = g.before(k, g.val(x.ops[1]), 8)
                da, sz = flat_arg(g, k)
                ok = ok or da is ADD(p, C(o("a0_transport_frame_s.data"))) and is_field(sz, ADD(p, C(o("a0_transport_frame_hdr_s.data_size"))))
                moves = [y for y in fn.allcalls() if (y.callee or "").startswith(("a0_transport_jump", "a0_transport_step")) and fn.dominates(y, x)]
                ok = ok and bool(moves) and moves[-1].is_call("a0_transport_jump_tail") and g.val(moves[-1].ops[0]) is s.tlk
            c.expect(ok, "merge-source", k, "the document patched is not that of the newest stored message")
        c.expect(g.val(docs[1].ops[0]) is orig[0] and g.val(docs[1].ops[1]) is orig[1], "merge-source", docs[1], "the patch applied is not the packet's payload")
        okf = AND(*[EQ(g.after(x, g.val(x.ops[-1]), 4), ZERO, 32) for x in docs + [wr]])
        c.implies("merge-fail", i, G_, okf, d, "a value is written although reading or merging failed")
    nofwd = NOT(OR(*[g.guard(i) for i in s.fwd])) if s.fwd else ONE
    if nofwd is not ZERO:
        c.implies("merge-fail", fn, nofwd, NOT(EQ(g.ret(), ZERO, 32)), d, "a write that did not happen is reported as fine")
    c.implies("merge-result", fn, is_empty, OR(*[g.guard(i) for i in s.fwd]), d, "nothing is written although nothing was stored")


def flat_arg(g, k):
    """data and size of the packet a call is given"""
    bv = k.raw.get("byval") or []
    if bv:
        a = g.val(k.ops[bv[0]])
        return g.before(k, a, 8), g.before(k, ADD(a, C(8)), 8)
    return g.val(k.ops[0]), g.val(k.ops[1])


def is_field(x, addr):
    return x.op == "ld" and x.a[0] is addr or x.op == "clob" and x.a[1] is addr


def cfg_writes(c):
    """C16: the configuration's conditional writes use those stages"""
    c.rule("cfg-wrap", "a conditional or merging configuration write goes through the matching stage, in front of the configuration's writer")
    c.rule("cfg-result", "the result of the write is returned and the temporary writer closed")
    w = Writers(c)
    spec = {"a0_cfg_write": None, "a0_cfg_write_if_empty": "a0_write_if_empty", "a0_cfg_mergepatch": "a0_json_mergepatch"}
    v = c.prog.view(list(spec), w.keep)
    cw = v.offset("a0_cfg_s._writer")
    for n, stage in spec.items():
        fn = c.use(v[n])
        g = G(fn)
        ws = fn.calls("a0_writer_write")
        if not one_of(c, "cfg-wrap", fn, g, ws, "%s's write" % n):
            continue
        i = ws[0]
        own = ADD(mk("arg", 0), C(cw))
        if stage is None:
            c.expect(g.val(i.ops[0]) is own, "cfg-wrap", i, "%s does not write through the configuration's writer" % n)
        else:
            wr = [k for k in fn.calls("a0_writer_wrap") if fn.dominates(k, i) and g.val(k.ops[-1]) is g.val(i.ops[0])]
            ok = False
            for k in wr:
                b = (k.raw.get("byval") or [1])[0]
                x = g.before(k, g.val(k.ops[b]), 8)
                m = fn.insts.get(x.a[0]) if x.op == "out" else None
                ok = m is not None and m.is_call(stage) and g.val(k.ops[0]) is own
                if ok and stage == "a0_write_if_empty":
                    fl = mk("arg", fn.param_index("written"))
                    x = g.val(m.ops[1])
                    cell = x

                    def later(j):
                        return i.block == j.block and j.idx > i.idx or j.block in fn.reach()[i.block]
                    st = [j for j in fn.order if j.op == "store" and later(j) and (g.addr_of(j) is fl or g.addr_of(j) is cell)]
                    same_ = [j for j in st if same(g.val(j.ops[0]), g.before(j, cell, 1), ONE)]
                    if not c.expect(len(st) == len(same_), "cfg-result", i, "%s changes the caller's flag after the write" % n):
                        continue
                    own_flag = bool(st) and same(g.at_ret(fl, 1), g.val(st[-1].ops[0]), NOT(EQ(fl, ZERO)))
                    ok = own_flag or x is fl or x.op == "sel" and any(a is fl and same(x, fl, AND(NOT(EQ(fl, ZERO)), NOT(EQ(b, fl)))) for a, b in ((x.a[1], x.a[2]), (x.a[2], x.a[1])))
            c.expect(ok, "cfg-wrap", i, "%s does not go through %s in front of the configuration's writer" % (n, stage))
            cl = [k for k in fn.calls("a0_writer_close") if g.val(k.ops[0]) is g.val(i.ops[0])]
            one_of(c, "cfg-result", fn, g, cl, "closing the temporary writer of %s" % n)
            for k in cl:
                c.expect(fn.dominates(i, k), "cfg-result", k, "%s closes its writer before writing" % n)
        ret_is(c, "cfg-result", fn, g, i, "%s loses the result of the write" % n)
        b = (i.raw.get("byval") or [1])[0]
        p = mk("arg", 1)
        a = g.val(i.ops[b])
        offs = [v.offset("a0_packet_s.headers_block") + k for k in (0, 8, 16)] + [v.offset("a0_packet_s.payload") + k for k in (0, 8)]
        c.expect(a is p or all(g.before(i, ADD(a, C(k)), 8) is LD(ADD(p, C(k))) for k in offs), "cfg-wrap", i, "%s writes something other than the given packet" % n)
