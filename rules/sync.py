"""C11: events and latches."""
import collections

from engine.ir import lin_add
from rules.common import *
from rules.mutex import EPERM, EAGAIN, ETIMEDOUT, EOWNERDEAD, OTHER

KEEP = ["a0_mtx_lock", "a0_mtx_timedlock", "a0_mtx_trylock", "a0_mtx_unlock", "a0_cnd_broadcast", "a0_cnd_signal", "a0_cnd_wait", "a0_cnd_timedwait"]
# kind of operation per entry point
API = {
    "a0_event_is_set": "test", "a0_event_set": "change", "a0_event_wait": "wait", "a0_event_timedwait": "wait",
    "a0_latch_count_down": "change", "a0_latch_try_wait": "test", "a0_latch_wait": "wait", "a0_latch_arrive_and_wait": "both",
}
St = collections.namedtuple("St", "lock val owed stores code out")
# lock: None not asked for, "held", "no" refused, "done" given back; val: sign of the state as last seen under the lock
# owed: waiters to be woken; out: result of the last condition wait


def sign(e, k):
    """facts that say expression e has sign k"""
    z = ("c", 0)
    return [(mk_cmp("slt", z, e), k > 0), (mk_cmp("slt", e, ("c", 1)), k <= 0), (mk_cmp("slt", e, z), k < 0), (mk_cmp("eq", e, z), k == 0),
            (mk_cmp("slt", ("c", -1), e), k >= 0)]


def objects(c):
    c.rule("sync-lock", "the state is read and changed only while the object's own mutex is held")
    c.rule("sync-refused", "when the mutex cannot be had the call fails and leaves the state alone; a dead owner does not count")
    c.rule("sync-unlock", "the mutex is given back exactly once on every path")
    c.rule("sync-change", "setting sets; counting down subtracts the given amount once")
    c.rule("sync-wake", "every change that makes waiters due wakes all of them")
    c.rule("sync-due", "a wait succeeds only if the state read last, under the mutex, says so")
    c.rule("sync-error", "a failed wait is reported")
    c.rule("sync-test", "a test reports the state read under the mutex")
    v = c.prog.view(list(API) + ["a0_latch_init"], KEEP)
    for n, kind in API.items():
        fn = c.use(v[n])
        latch = "latch" in n
        S = "a0_latch_s" if latch else "a0_event_s"
        O = ("arg", 0)
        at = lambda f: lin_add(O, ("c", v.offset(S + "." + f)))
        VAL, MTX, CND = at("_val"), at("_mtx"), at("_cnd")
        due = (lambda k: k is not None and k <= 0) if latch else (lambda k: k == 1)
        classes = (-1, 0, 1) if latch else (0, 1)
        outp = ("arg", 1) if kind == "test" else None

        def on_inst(s, i, ctx):
            p = ex.path
            if i.op == "load":
                a = ctx.shape(i.ops[0])
                e = ("load", i.id, fn.field_of(i))
                if a == VAL:
                    if not c.expect(s.lock == "held", "sync-lock", i, "%s reads the state without holding the mutex" % n, p()):
                        return s
                    ks = classes if s.val is None else (s.val,)
                    if latch:
                        return [Assume(s._replace(val=k), *sign(e, k)) for k in ks]
                    return [Assume(s._replace(val=k), (mk_cmp("eq", e, ("c", 0)), k == 0), (is_zero(fn, i), k == 0)) for k in ks]
                if a == ("g", "a0_err_syscode", 0) and s.code is not None:
                    return Assume(s, (mk_cmp("eq", e, ("c", s.code)), True))
                if a == ("g", "A0_TIMEOUT_NEVER", 0):
                    return Assume(s, (is_zero(fn, i), True))
                return s
            if i.op in ("store", "atomicrmw", "cmpxchg"):
                a = ctx.shape(i.ops[1] if i.op == "store" else i.ops[0])
                if a == VAL:
                    c.expect(s.lock == "held", "sync-lock", i, "%s changes the state without holding the mutex" % n, p())
                    if i.op != "store":
                        c.bad("sync-change", i, "%s changes the state in another way than the operation asks for" % n)
                        return s
                    e = ctx.expr(i.ops[0])
                    if latch:
                        d = lin_add(fn.eshape(e), ("ld", VAL, 4), 1, -1)
                        same = d == ("c", 0)
                        ok = kind != "test" and (d == lin_add(("c", 0), ("arg", 1), 1, -1) and n != "a0_latch_wait" or same)
                        c.expect(ok, "sync-change", i, "%s changes the count by something other than the given amount" % n, p())
                        if same:
                            return s
                        return [Assume(s._replace(val=k, owed=k <= 0, stores=s.stores + 1), *sign(e, k)) for k in classes]
                    k = ctx.const(i.ops[0])
                    c.expect(k == 1 and kind == "change", "sync-change", i, "%s makes the event something other than set" % n, p())
                    return s._replace(val=1, owed=True, stores=1)
                if outp is not None and a == outp:
                    c.expect(s.lock in ("held", "done") and s.val is not None, "sync-test", i, "%s reports a state it has not read under the mutex" % n, p())
                    z = ctx.nonzero(i.ops[0])
                    c.expect(s.val is None or z is due(s.val), "sync-test", i, "%s reports the opposite of the state, or something else" % n, p())
                    return s._replace(stores=1)
                if a == ("g", "a0_err_syscode", 0):
                    return s._replace(code=ctx.const(i.ops[0]))
                return s
            if i.op not in ("call", "invoke"):
                return s
            if i.callee in KEEP:
                k = 0 if i.callee.startswith("a0_mtx") else 1
                if not c.expect(ctx.shape(i.ops[k]) == MTX and (k == 0 or ctx.shape(i.ops[0]) == CND), "sync-lock", i,
                                "%s uses another object's mutex or condition" % n):
                    return s
            z = is_zero(fn, i)
            r = fn.expr(("i", i.id))
            sysv = v.enum("A0_ERR_SYS")
            died = [(z, False), (mk_cmp("eq", r, ("c", sysv)), True)]
            if i.callee in ("a0_mtx_lock", "a0_mtx_timedlock", "a0_mtx_trylock"):
                c.expect(s.lock in (None, "done"), "sync-unlock", i, "%s locks the mutex twice" % n, p())
                return [Assume(s._replace(lock="held", val=None), (z, True)), Assume(s._replace(lock="held", val=None, code=EOWNERDEAD), *died),
                        Assume(s._replace(lock="no", code=OTHER), *died)]
            if i.callee == "a0_mtx_unlock":
                c.expect(s.lock == "held", "sync-unlock", i, "%s gives back a mutex it does not hold" % n, p())
                return s._replace(lock="done")
            if i.callee == "a0_cnd_broadcast":
                return s._replace(owed=False)
            if i.callee in ("a0_cnd_wait", "a0_cnd_timedwait"):
                c.expect(s.lock == "held", "sync-lock", i, "%s waits without holding the mutex" % n, p())
                c.expect(not s.owed, "sync-wake", i, "%s sleeps without having woken the others" % n, p())
                c.expect(s.val is not None and not due(s.val), "sync-due", i, "%s sleeps although it is due, or without having looked" % n, p())
                w = s._replace(val=None)
                out = [Assume(w._replace(out=0), (z, True)), Assume(w._replace(code=EOWNERDEAD, out=EOWNERDEAD), *died),
                       Assume(w._replace(code=OTHER, out=OTHER), *died)]
                if i.callee == "a0_cnd_timedwait":
                    out.append(Assume(w._replace(code=ETIMEDOUT, out=ETIMEDOUT), *died))
                return out
            return s

        def on_ret(s, i, ctx):
            z = ctx.nonzero(i.ops[0])
            p = ex.path()
            if s.lock == "no":
                c.expect(z is True, "sync-refused", fn, "%s reports success although the mutex could not be had" % n, p)
                c.expect(not s.stores, "sync-refused", fn, "%s changes the state although the mutex could not be had" % n, p)
                return
            c.expect(s.lock == "done", "sync-unlock", fn, "%s returns with the mutex held" % n, p)
            c.expect(not s.owed, "sync-wake", fn, "%s returns without having woken the waiters" % n, p)
            if kind in ("change", "test"):
                c.expect(z is False, "sync-refused", fn, "%s fails although it obtained the mutex" % n, p)
                c.expect(s.stores == 1, "sync-test" if kind == "test" else "sync-change", fn, "%s succeeds without having done its work once" % n, p)
            if kind == "both":
                c.expect(s.stores == 1, "sync-change", fn, "%s does not count down exactly once" % n, p)
            if kind in ("wait", "both") and z is not True:
                c.expect(due(s.val), "sync-due", fn, "%s can succeed although it is not due" % n, p)
            if kind in ("wait", "both") and s.out == ETIMEDOUT and not due(s.val):
                c.expect(z is True and s.code == ETIMEDOUT, "sync-error", fn, "%s does not report that the time ran out" % n, p)
            if kind in ("wait", "both") and (s.out is None or s.out == 0 and due(s.val)):
                c.expect(z is False, "sync-error", fn, "%s reports failure although nothing failed" % n, p)
        ex = Explorer(fn, on_inst=on_inst, on_ret=on_ret, track={i.id for i in fn.order if i.op in ("load", "phi")})
        run(c, ex, St(None, None, False, 0, None, None))
    # a fresh latch
    fn = c.use(v["a0_latch_init"])
    g = G(fn)
    o = v.offset
    A = mk("arg", 0)
    val = g.at_ret(ADD(A, C(o("a0_latch_s._val"))), 4)
    c.expect(val is mk("arg", 1), "sync-change", fn, "a0_latch_init does not start from the given count")
    for f in ("_mtx", "_cnd"):
        off = o("a0_latch_s." + f) + (o("a0_mtx_s.ftx") if f == "_mtx" else 0)
        c.expect(g.at_ret(ADD(A, C(off)), 4) is ZERO, "sync-change", fn, "a0_latch_init leaves the mutex or condition as it was")
