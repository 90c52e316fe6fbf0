"""C09: deadlines and clocks."""
from engine.ir import lin_add
from rules.common import *
from rules.mutex import KEEP, futex_op, WAIT, LOCK_PI, LOCK_PI2, WAIT_BITSET, WAIT_REQUEUE_PI, CLOCK_RT, ETIMEDOUT

REALTIME, MONOTONIC, BOOTTIME = 0, 1, 7
NS = 1000000000
API = ["a0_mtx_timedlock", "a0_cnd_timedwait", "a0_deadman_mtx_timedlock", "a0_deadman_mtx_timedwait_locked",
       "a0_deadman_mtx_timedwait_unlocked", "a0_deadman_timedtake", "a0_deadman_timedwait_taken", "a0_deadman_timedwait_released",
       "a0_transport_timedwait", "a0_event_timedwait", "a0_reader_sync_zc_read_blocking_timeout", "a0_reader_sync_read_blocking_timeout",
       "a0_subscriber_sync_zc_read_blocking_timeout", "a0_subscriber_sync_read_blocking_timeout", "a0_cfg_read_blocking_timeout",
       "a0_rpc_client_send_blocking_timeout"]
# where the waiting is done
WAITS = ["a0_mtx_timedlock", "a0_cnd_timedwait", "a0_deadman_mtx_timedlock", "a0_deadman_mtx_timedwait_locked", "a0_deadman_mtx_timedwait_unlocked"]
NEVER = ("g", "A0_TIMEOUT_NEVER", 0)


def deadline(fn):
    """IR index of the deadline parameter"""
    for k in range(len(fn.params)):
        pos, nm, off, t = fn._params()[k]
        if t and t[0] == "ptr" and t[1] in (["struct", "a0_time_mono_s"], ["typedef", "a0_time_mono_t"]):
            return k
    return None


def s64(x):
    x &= (1 << 64) - 1
    return x - (1 << 64) if x >> 63 else x


def kernel(c):
    c.rule("time-clock", "each kind of wait is given its deadline in the clock the kernel compares it with, as an absolute time")
    c.rule("time-convert", "the converted deadline is the same instant, to the nanosecond, and one the kernel accepts")
    c.rule("time-none", "a wait is unbounded exactly when no deadline was given")
    v = c.prog.view(WAITS, KEEP)
    for n in WAITS:
        fn = c.use(v[n])
        k = deadline(fn)
        if k is None:
            raise AnalysisBroken("%s takes no deadline" % n)
        T = ("arg", k)
        g = G(fn)
        sites = {}

        def on_inst(s, i, ctx):
            fo = futex_op(fn, i)
            if fo is None or fo[0] not in (WAIT, LOCK_PI, LOCK_PI2, WAIT_BITSET, WAIT_REQUEUE_PI):
                return s
            if n == "a0_cnd_timedwait" and fo[0] != WAIT_REQUEUE_PI:
                return s  # taking the mutex back is not bounded
            t = ctx.expr(i.ops[4])
            if t == ("c", 0):
                c.expect(ctx.truth(mk_cmp("eq", T, ("c", 0))) is True, "time-none", i, "%s can wait for ever although it was given a deadline" % n, ex.path())
                return s
            c.expect(ctx.truth(mk_cmp("eq", T, ("c", 0))) is False, "time-none", i, "%s can use a deadline that was not given" % n, ex.path())
            sites.setdefault((i.id, t), (i, fo))
            return s
        ex = Explorer(fn, on_inst=on_inst, track={i.id for i in fn.order if i.op == "phi" and i.raw.get("ty") == "ptr"})
        run(c, ex, 0)
        c.expect(bool(sites), "time-convert", fn, "%s never waits with its deadline" % n)
        for (_, t), (i, (op, fl)) in sites.items():
            if op == WAIT:
                c.bad("time-clock", i, "%s passes an absolute deadline to a wait that takes a relative one" % n)
                continue
            want = REALTIME if op == LOCK_PI or fl & CLOCK_RT else MONOTONIC
            if t[0] != "alloca":
                c.bad("time-convert", i, "%s gives the kernel a deadline that was not converted" % n)
                continue
            a = mk("alloca", t[1])
            sec, ns = g.before(i, a, 8), g.before(i, ADD(a, C(8)), 8)
            check_convert(c, fn, i, g, sec, ns, mk("arg", k), want)


def clock_of(fn, x):
    """clock a leaf was read from"""
    if x.op != "out":
        return None
    i = fn.insts[x.a[0]]
    if not i.is_call("clock_gettime"):
        return None
    e = fn.expr(i.ops[0])
    return e[1] if e[0] == "c" else None


def check_convert(c, fn, i, g, sec, ns, T, want):
    n = fn.name
    role = {}
    for x in leaves(sec, ns):
        if x.op == "ld" and x.a[0] is T:
            role[x] = "ds"
        elif x.op == "ld" and x.a[0] is ADD(T, C(8)):
            role[x] = "dn"
        elif x.op == "out":
            k = clock_of(fn, x)
            if k not in (BOOTTIME, want):
                c.bad("time-clock", i, "%s converts its deadline to or from the wrong clock" % n)
                return
            off = x.a[2]
            off = off.a[0] if hasattr(off, "op") else off
            role[x] = ("b" if k == BOOTTIME else "t") + ("s" if off == 0 else "n")
    have = set(role.values())
    if not c.expect({"ds", "dn", "bs", "bn", "ts", "tn"} <= have, "time-clock", i,
                    "%s does not convert its deadline from the library's clock to the one the kernel uses" % n):
        return
    grids = [{"ds": (990, 1000, 1001, 1003), "dn": (0, 5, 999999999), "bs": (1000,), "bn": (0, 7, 999999998), "ts": (100, 2000), "tn": (1, 999999999)},
             {"ds": (-(1 << 63), -1, 0, (1 << 63) - 1, 9223372037, 18446744074), "dn": (0, 3), "bs": (90000,), "bn": (5,), "ts": (40, 1700000000), "tn": (9,)}]
    for gr in grids:
        dom = lambda x: gr[role[x]] if x in role else (0,)
        for row, (s, m) in tabulate([sec, ns], dom):
            c.rows += 1
            val = {}
            for x, r in role.items():
                val.setdefault(r, s64(row.get(x, 0)))
            s, m = s64(s), s64(m)
            exact = (val["ts"] - val["bs"] + val["ds"]) * NS + val["tn"] - val["bn"] + val["dn"]
            got = s * NS + m
            ok = 0 <= m < NS and s >= 0
            if 0 <= exact < 3 * 10 ** 18:
                ok = ok and got == exact
            elif exact < 0:
                ok = ok and got <= val["ts"] * NS
            else:
                ok = ok and got > val["ts"] * NS + 10 ** 18
            if not ok:
                c.bad("time-convert", i, "%s waits until another moment than its deadline" % n,
                      "e.g. deadline %d.%09d, library clock %d.%09d, kernel clock %d.%09d: waits until %d.%09d" %
                      (val["ds"], val["dn"], val["bs"], val["bn"], val["ts"], val["tn"], s, m))
                return
            c.ok("time-convert")
    c.ok("time-clock")


def passing(c):
    c.rule("time-pass", "every wait inside a timed call is bounded by that call's own deadline")
    c.rule("time-untimed", "a call without a deadline never waits with one")
    c.rule("time-const", "a deadline is not changed by the calls it is given to")
    v0 = c.prog.view(["a0_event_wait"], [], address_taken=True)
    pub = sorted(n for n, st, f, ln, sn in v0.defined.values() if "/src/" in f and not st)
    roots = sorted(set(pub) | {n for n, st, f, ln, sn in v0.defined.values() if "/src/" in f and n in v0.address_taken})
    v = c.prog.view(roots, pub)
    timed = {}
    for n in pub:
        fn = v.get(n)
        if fn is not None and not v.defined[n][2].endswith("/time.c"):
            k = deadline(fn)
            if k is not None:
                timed[n] = k
    for n in API:
        if n not in timed:
            raise AnalysisBroken("%s is gone or takes no deadline" % n)
    # functions that wait without bound
    forever = set()
    for n in roots:
        fn = v.get(n)
        if fn is None or n in timed or n == "a0_mtx_lock":
            continue
        for i in fn.allcalls():
            if i.callee in timed and i.callee != "a0_mtx_timedlock":
                e = fn.expr(i.ops[timed[i.callee]])
                c.use(fn)
                if n not in pub and e[0] in ("arg", "load") and (e[0] == "arg" or fn.eshape(e) != ("ld", NEVER, 8)):
                    continue  # a callback that is handed its deadline
                none = e == ("c", 0) or e[0] == "load" and fn.expr(fn.insts[e[1]].ops[0]) == NEVER
                c.expect(none, "time-untimed", i, "%s, which has no deadline, waits with one" % n)
                forever.add(n)
    grow = True
    while grow:
        grow = False
        for n in roots:
            fn = v.get(n)
            if fn is not None and n not in timed and n not in forever and any(i.callee in forever and i.callee in pub for i in fn.allcalls()) \
                    and not n.endswith("_close"):
                forever.add(n)
                grow = True
    for n, k in timed.items():
        fn = c.use(v[n])
        T = ("arg", k)
        hits = []

        def on_inst(s, i, ctx):
            if i.op in ("call", "invoke") and i.callee in timed:
                hits.append(i)
                e = ctx.expr(i.ops[timed[i.callee]])
                null = ctx.truth(mk_cmp("eq", T, ("c", 0))) is True
                c.expect(e == T or null and (e == ("c", 0) or e[0] == "load" and fn.expr(fn.insts[e[1]].ops[0]) == NEVER), "time-pass", i,
                         "%s waits in %s with something other than its own deadline" % (n, i.callee), ex.path())
            elif i.op in ("call", "invoke") and i.callee in forever:
                c.expect(ctx.truth(mk_cmp("eq", T, ("c", 0))) is True, "time-pass", i, "%s waits in %s without its deadline" % (n, i.callee), ex.path())
            elif futex_op(fn, i) and futex_op(fn, i)[0] in (WAIT, WAIT_BITSET, WAIT_REQUEUE_PI, LOCK_PI, LOCK_PI2):
                hits.append(i)
            if i.op == "store" or i.op in ("call", "invoke") and (i.callee or "").startswith(("llvm.mem", "a0_time_mono_")):
                tgt = [i.ops[1]] if i.op == "store" else [i.ops[-1]] if i.callee.startswith("a0_time") else [i.ops[0]]
                for a in tgt:
                    e = ctx.expr(a)
                    c.expect(e != T and not (e[0] == "lin" and any(x == T for x, _ in e[2])), "time-const", i, "%s changes the deadline it was given" % n, ex.path())
            return s
        ex = Explorer(fn, on_inst=on_inst, track={i.id for i in fn.order if i.op == "phi" and i.raw.get("ty") == "ptr"})
        run(c, ex, 0)
        c.expect(bool(hits), "time-pass", fn, "%s never waits with its deadline" % n)


def clocks(c):
    c.rule("time-now", "the library's monotonic clock is the one deadlines are measured in, the wall clock the real-time clock")
    c.rule("time-add", "adding to a time is exact and keeps it normalised")
    c.rule("time-never", "no deadline is the null pointer")
    c.rule("time-early", "a transport wait does not decide that time is up before the deadline")
    v = c.prog.view(["a0_time_mono_now", "a0_time_wall_now", "a0_time_mono_add"], [])
    for n, k in (("a0_time_mono_now", BOOTTIME), ("a0_time_wall_now", REALTIME)):
        fn = c.use(v[n])
        cl = [i for i in fn.calls("clock_gettime")]
        c.expect(bool(cl) and all(fn.expr(i.ops[0]) == ("c", k) and fn.expr(i.ops[1]) == ("arg", 0) for i in cl), "time-now", fn, "%s reads the wrong clock" % n)
    fn = c.use(v["a0_time_mono_add"])
    g = G(fn)
    o = mk("arg", fn.arg(2))
    sec, ns = g.at_ret(o, 8), g.at_ret(ADD(o, C(8)), 8)
    S, N, A = mk("arg", fn.arg(0)), mk("arg", fn.arg(0, 8)), mk("arg", fn.arg(1))
    dom = lambda x: (0, 1000) if x is S else (0, 1, 999999999) if x is N else (0, 1, -1, NS, -NS, 999999999, -999999999, 1500000000, -2000000001, 7 * NS + 3) if x is A else (0,)
    good = True
    for row, (s, m) in tabulate([sec, ns], dom):
        c.rows += 1
        want = (s64(row.get(S, 0))) * NS + s64(row.get(N, 0)) + s64(row.get(A, 0))
        if not (s64(s) * NS + s64(m) == want and 0 <= s64(m) < NS):
            good = False
    c.expect(good and {S, N, A} <= set(leaves(sec, ns)), "time-add", fn, "a0_time_mono_add gives a wrong or unnormalised time")
    # the constant
    v0 = c.prog.view(["a0_event_wait"], [], address_taken=True)
    gl = v0.globals.get("A0_TIMEOUT_NEVER") or v.globals.get("A0_TIMEOUT_NEVER")
    pub = sorted(n for n, st, f, ln, sn in v0.defined.values() if "/src/" in f and not st)
    v2 = c.prog.view(pub, pub)
    c.expect(gl is not None and null_init(gl), "time-never", "src/time.c", "the no-deadline constant is not the null pointer")
    for n in pub:
        f = v2.get(n)
        for i in f.stores() if f else ():
            if f.expr(i.ops[1]) == NEVER:
                c.bad("time-never", i, "%s changes what no deadline means" % n)
    # early expiry
    vt = c.prog.view(["a0_transport_timedwait"], KEEP + ["a0_cnd_timedwait", "a0_cnd_broadcast"])
    fn = c.use(vt["a0_transport_timedwait"])
    k = deadline(fn)
    T = mk("arg", k)
    g = G(fn)
    sts = [i for i in fn.stores() if fn.expr(i.ops[1]) == ("g", "a0_err_syscode", 0) and g.val(i.ops[0]) is C(ETIMEDOUT)]
    for i in sts:
        gd = g.guard(i)
        # nobody changes the deadline (time-const)
        gd = subst(gd, {x: mk("ld", x.a[1], 8) for x in leaves(gd) if x.op == "clob" and x.a[1] in (T, ADD(T, C(8)))})
        role = {}
        for x in leaves(gd):
            if x.op == "ld" and x.a[0] is T:
                role[x] = "ds"
            elif x.op == "ld" and x.a[0] is ADD(T, C(8)):
                role[x] = "dn"
            elif x.op == "out" and clock_of(fn, x) is not None:
                off = x.a[2]
                off = off.a[0] if hasattr(off, "op") else off
                role[x] = ("b" if clock_of(fn, x) == BOOTTIME else "x") + ("s" if off == 0 else "n")
        by = {}
        for x, r in role.items():
            by.setdefault(r, []).append(x)
        if not c.expect({"ds", "dn", "bs", "bn"} <= set(by), "time-early", i, "a transport wait gives up without comparing its deadline with the library's clock"):
            continue
        D, E_ = by["ds"][0], by["dn"][0]
        claim = ZERO
        for bs in by["bs"]:
            bn = [x for x in by["bn"] if x.a[0] == bs.a[0]]
            if bn:
                claim = OR(claim, CMP("slt", 64, D, bs), AND(EQ(D, bs), NOT(CMP("slt", 64, bn[0], E_))))

        def dom(x):
            r = role.get(x)
            if r in ("ds",):
                return (4, 5, 6, 18446744074, (1 << 63) - 1)
            if r == "bs":
                return (5,)
            if r in ("dn", "bn"):
                return (3, 4)
            if x is T:
                return (0, 1)
            return (0, 1)
        c.implies("time-early", i, AND(gd, NOT(EQ(T, ZERO))), claim, dom, "a transport wait can give up before its deadline")
    c.expect(bool(sts), "time-early", fn, "a transport wait never finds that its deadline has passed")


def null_init(gl):
    return gl["init"] is not None and gl["init"][:2] == ["c", 0]
