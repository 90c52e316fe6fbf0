"""C02: the transport lock, taken and given back along every path of the library."""
from rules.common import *
from rules import transport as tr

NEEDS_NO_LOCK = ("a0_transport_init", "a0_transport_lock", "a0_transport_allocator", "a0_transport_empty_pred",
                 "a0_transport_nonempty_pred", "a0_transport_has_next_pred")
HANDOFF = ("a0_middleware_s.process", "a0_middleware_s.process_locked", "a0_middleware_chain_s._chain_fn")


def users(prog):
    """(view, names) of all functions outside the transport that use it"""
    v0 = prog.view(["a0_transport_lock"], [], address_taken=True)
    tapi = sorted(n for n, st, f, ln, sn in v0.defined.values() if f.endswith("src/transport.c") and not st)
    us = sorted(n for n, st, f, ln, sn in v0.defined.values()
                if "/src/" in f and (not st or n in v0.address_taken))
    keep = sorted(n for n, st, f, ln, sn in v0.defined.values() if "/src/" in f and not st) + ["a0_mtx_lock", "a0_mtx_unlock", "a0_event_set", "a0_event_wait", "a0_event_init", "a0_tid", "a0_cnd_broadcast"]
    v = prog.view(us, keep)
    out = []
    for n in us:
        f = v.get(n)
        if f is None:
            continue
        own = {x[0]: x[2] for x in v0.defined.values()}[n].endswith("src/transport.c")
        if any((i.callee or "").startswith("a0_transport_" if not own else "a0_transport_lock") for i in f.allcalls()):
            out.append(n)
    return v, out, tapi


def dispatches(v, i):
    """a call of the (recursive, hence never inlined) function that runs the rest of a chain"""
    d = v.defined.get(i.callee) if i.callee else None
    return d is not None and bool(d[1]) and bool(i.raw.get("byval"))


def takes(fn, struct):
    for k in range(len(fn.params)):
        pos, nm, off, t = fn._params()[k]
        if t == ["struct", struct]:
            return True
    return False


def locks(c):
    c.rule("lock-held", "a transport is only looked at or changed while its lock is held")
    c.rule("lock-once", "a held lock is not taken again")
    c.rule("lock-balance", "the lock is given back exactly once on every path")
    c.rule("lock-checked", "a transport whose lock could not be taken is not touched")
    v, us, tapi = users(c.prog)
    if len(us) < 15:
        raise AnalysisBroken("only %d functions use a transport" % len(us))
    for n in us:
        fn = c.use(v[n])
        lent = takes(fn, "a0_transport_locked_s")
        mw = takes(fn, "a0_middleware_chain_s")

        def on_inst(s, i, ctx):
            if i.op not in ("call", "invoke"):
                return s
            st = s[0]
            if i.callee == "a0_transport_lock":
                if st in ("H", "?"):
                    c.bad("lock-once", i, "%s locks a transport it has already locked" % n, ex.path())
                else:
                    c.ok("lock-once")
                return ("?", i.id)
            if st == "?":
                z = ctx.nonzero(("i", s[1]))
                if z is True:
                    st, s = "U", ("U", None)
                elif z is False:
                    st, s = "H", ("H", None)
            if i.callee == "a0_transport_unlock":
                if st == "U" or st == "X":
                    c.bad("lock-balance", i, "%s gives back a lock it does not hold" % n, ex.path())
                else:
                    c.ok("lock-balance")
                return ("U", None)
            if i.callee in tapi and i.callee not in NEEDS_NO_LOCK:
                if st == "?":
                    c.bad("lock-checked", i, "%s uses the transport without having checked that locking it succeeded" % n, ex.path())
                    return ("H", None)
                c.ok("lock-checked")
                c.expect(st == "H", "lock-held", i, "%s calls %s without holding the transport lock" % (n, i.callee), ex.path())
                return s
            if is_indirect(i) and mw_call(fn, i, ctx, mw) or dispatches(v, i):
                if st == "X":
                    c.bad("lock-balance", i, "%s passes the locked transport on twice" % n, ex.path())
                if st == "?":
                    c.bad("lock-checked", i, "%s passes on a transport without having checked that locking it succeeded" % n, ex.path())
                return ("X", None) if st != "U" else s
            return s

        def mw_call(fn, i, ctx, mw):
            r = fptr_role(fn, i, ctx.env)
            return r in HANDOFF

        def on_ret(s, i, ctx):
            st = s[0]
            if st == "?":
                z = ctx.nonzero(("i", s[1]))
                st = "U" if z is True else "H"
                if z is None and lent and not mw:
                    st = "H"
            if lent and not mw:
                c.expect(st == "H", "lock-balance", fn, "%s returns without the lock its caller lent it" % n, ex.path())
            else:
                c.expect(st in ("U", "X"), "lock-balance", fn, "%s returns with the transport still locked" % n, ex.path())
        ex = Explorer(fn, on_inst=on_inst, on_ret=on_ret, track={i.id for i in fn.calls("a0_transport_lock")})
        run(c, ex, ("H", None) if lent else ("U", None))


def lock_result(c):
    """the lock call itself tells failure from success"""
    c.rule("lock-reports", "locking reports success only when the mutex was obtained, and failure otherwise")
    fam = tr.family(c)
    t = fam["lock"]
    v = fam.view
    mode = t.mem(ADD(t.T, C(t.o_mode)), 4, t.entry(), "a0_arena_s.mode")
    t = t.under({mode: C(v.enum("A0_ARENA_MODE_SHARED"))})
    ml = t.fn.calls("a0_mtx_lock", "a0_mtx_timedlock", "a0_mtx_trylock")
    if not c.expect(len(ml) == 1, "lock-reports", t.fn, "a0_transport_lock does not lock the transport's mutex exactly once"):
        return
    res = t.g.val(("i", ml[0].id))
    code = t.g.after(ml[0], mk("g", "a0_err_syscode"), 4)
    EOWNERDEAD = 130
    sys_ = v.enum("A0_ERR_SYS")
    for at, r, gd in t.rets():
        r2 = subst(r, t.m)
        got = OR(EQ(res, ZERO, 32), AND(EQ(res, C(sys_), 32), EQ(code, C(EOWNERDEAD), 32)))
        dom = lambda x: (0, sys_, 3) if x is res else (0, 35, 130) if x is code else (0, 1)
        c.implies("lock-reports", t.fn, ONE, EQ(EQ(r2, ZERO, 32), got), dom,
                  "a0_transport_lock reports success although the mutex was not obtained, or failure although it was")
    # the mutex is the transport's
    c.expect(t.g.val(ml[0].ops[0]) is ADD(t.hdr, C(t.o_mtx)), "lock-reports", ml[0], "a0_transport_lock locks another mutex")
    u = fam["unlock"]
    mode = u.mem(ADD(u.T, C(u.o_mode)), 4, u.entry(), "a0_arena_s.mode")

    def on_inst(s, i, ctx):
        if i.is_call("a0_mtx_unlock"):
            c.expect(u.g.val(i.ops[0]) is ADD(u.hdr, C(u.o_mtx)), "lock-reports", i, "a0_transport_unlock unlocks another mutex")
            return s + 1
        if s and (u.is_page_write(i) or u.is_frame_write(i)):
            c.bad("lock-held", i, "a0_transport_unlock writes to the transport after giving the mutex back", ex.path())
        return s

    def on_ret(s, i, ctx):
        pass
    ex = Explorer(u.fn, on_inst=on_inst)
    run(c, ex, 0)
    ul = u.fn.calls("a0_mtx_unlock")
    gs = [subst(u.g.guard(i), {mode: C(v.enum("A0_ARENA_MODE_SHARED"))}) for i in ul]
    c.expect(bool(gs) and OR(*gs) is ONE, "lock-reports", u.fn, "a0_transport_unlock does not give back the mutex of a shared arena on every path")
