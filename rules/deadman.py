"""C10: the deadman switch."""
import collections

from engine.ir import lin_add
from rules.common import *
from rules.mutex import (KEEP, futex_op, bits, WAIT, WAKE, WAIT_BITSET, PRIVATE, DIED, WAITERS, TIDMASK,
                         EPERM, EAGAIN, ETIMEDOUT, EOWNERDEAD, OTHER)

ESHUTDOWN = 108
M32 = 0xffffffff
# entry points: kind, position of the token argument
API = {
    "a0_deadman_mtx_lock": ("take", None), "a0_deadman_mtx_trylock": ("take", None), "a0_deadman_mtx_timedlock": ("take", None),
    "a0_deadman_mtx_unlock": ("release", None),
    "a0_deadman_mtx_wait_locked": ("taken", None), "a0_deadman_mtx_timedwait_locked": ("taken", None),
    "a0_deadman_mtx_wait_unlocked": ("released", 1), "a0_deadman_mtx_timedwait_unlocked": ("released", 2),
    "a0_deadman_take": ("take", None), "a0_deadman_trytake": ("take", None), "a0_deadman_timedtake": ("take", None),
    "a0_deadman_release": ("release", None),
    "a0_deadman_wait_taken": ("taken", None), "a0_deadman_timedwait_taken": ("taken", None),
    "a0_deadman_wait_released": ("released", 1), "a0_deadman_timedwait_released": ("released", 2),
}

St = collections.namedtuple("St", "own isown words conf shut errno code pend listed bump clear owed inop tok tokread released out dead was")
START = St(False, None, (), None, None, None, None, False, False, 0, False, False, False, None, False, False, None, False, False)


def view(prog):
    return prog.view(list(API) + ["a0_deadman_mtx_shutdown", "a0_deadman_close"], KEEP)


def evaluate(e, env):
    """value of a 32-bit expression"""
    if e in env:
        return env[e]
    o = e[0]
    if o == "c":
        return e[1] & M32
    if o == "and":
        r = M32
        for x in e[1:]:
            v = evaluate(x, env)
            if v is None:
                return None
            r &= v
        return r
    if o in ("or", "xor"):
        r = 0
        for x in e[1:]:
            v = evaluate(x, env)
            if v is None:
                return None
            r = r | v if o == "or" else r ^ v
        return r
    if o == "lin":
        r = e[1]
        for k, n in e[2]:
            v = evaluate(k, env)
            if v is None:
                return None
            r += n * v
        return r & M32
    if o == "call" and e[2] == "a0_tid":
        return 7
    return None


def classify(old, new):
    """what replacing old by new does: 'take', 'announce' or None"""
    take = ann = True
    for t in (0, 5):
        for f in (0, WAITERS, DIED, WAITERS | DIED):
            v = evaluate(new, {old: t | f})
            if v is None:
                return None
            if t == 0 and v != ((t | f | 7) & ~DIED & M32):
                take = False
            if v != (t | f | WAITERS):
                ann = False
    return "take" if take else "announce" if ann else None


def carriers(fn, ids):
    """ids, and the phis through which their values travel"""
    ids = set(ids)
    while True:
        n = len(ids)
        for i in fn.order:
            if i.id in ids or i.op not in ("phi", "select", "extractvalue", "trunc", "zext", "and", "or"):
                continue
            if any(v[0] == "i" and v[1] in ids for v in i.ops) and (i.op != "and" or True):
                ids.add(i.id)
        if len(ids) == n:
            return ids


def deadman(c):
    c.rule("dead-take", "the switch is taken only from nobody, by one atomic replacement with the caller's id that keeps the waiters' mark")
    c.rule("dead-result", "taking succeeds exactly when the caller became the holder, and says whether the previous one died")
    c.rule("dead-token", "each new holder gets a fresh token, and no waiter can sleep through the change")
    c.rule("dead-notify", "taking, releasing and a holder's death reach every waiter")
    c.rule("dead-bracket", "taking and releasing are covered by the robust list")
    c.rule("dead-owner", "only the holder releases")
    c.rule("dead-sleep", "a waiter sleeps only on the state it announced itself in, while what it waits for has not happened")
    c.rule("dead-wait", "a wait succeeds only when what it waits for was found in the latest state")
    c.rule("dead-shutdown", "no operation sleeps once shutdown has been requested, and it is reported as such")
    c.rule("dead-inop", "an operation that may sleep is visible to shutdown for as long as it runs")
    c.rule("dead-error", "a failed or timed-out wait is reported")
    v = view(c.prog)
    o = v.offset
    for n, (kind, tokarg) in API.items():
        fn = c.use(v[n])
        base = ("arg", 0)
        if not n.startswith("a0_deadman_mtx"):
            base = lin_add(base, ("c", o("a0_deadman_s._deadman_mtx")))
        stkn = ("ld", lin_add(base, ("c", o("a0_deadman_mtx_s._stkn"))), 8)
        at = lambda f, b=base: lin_add(b, ("c", o(f)))
        MTX = at("a0_deadman_mtx_shared_token_s._mtx", stkn)
        WORD = lin_add(MTX, ("c", o("a0_mtx_s.ftx")))
        TKN = at("a0_deadman_mtx_shared_token_s._tkn", stkn)
        ISOWN, SHUT, INOP = at("a0_deadman_mtx_s._is_owner"), at("a0_deadman_mtx_s._shutdown"), at("a0_deadman_mtx_s._inop")
        tok = ("arg", fn.arg(tokarg)) if tokarg is not None else None

        def flag(s, i, ctx, name, val):
            """outcomes of reading a flag"""
            z = is_zero(fn, i)
            cur = getattr(s, name)
            if cur is not None:
                return Assume(s, (z, not cur))
            return [Assume(s._replace(**{name: True}), (z, False)), Assume(s._replace(**{name: False}), (z, True))]

        def on_inst(s, i, ctx):
            p = ex.path
            if i.op == "load":
                a = ctx.shape(i.ops[0])
                e = ("load", i.id, fn.field_of(i))
                if a == WORD:
                    out = []
                    rest = tuple(w for w in s.words if w[0] != i.id)[-1:]
                    for free in (True, False):
                        for died in (True, False):
                            out.append(Assume(s._replace(words=rest + ((i.id, free, died),)),
                                              (mk_cmp("eq", bits(e, TIDMASK), ("c", 0)), free),
                                              (mk_cmp("eq", bits(e, DIED), ("c", 0)), not died),
                                              (mk_cmp("eq", bits(e, DIED), ("c", DIED)), died)))
                    return out
                if a == ISOWN:
                    if s.isown is None:
                        z = is_zero(fn, i)
                        return [Assume(s._replace(isown=True, was=True), (z, False)), Assume(s._replace(isown=False), (z, True))]
                    return flag(s, i, ctx, "isown", None)
                if a == SHUT:
                    return flag(s, i, ctx, "shut", None)
                if a == TKN:
                    s = s._replace(tokread=True)
                    if tok is not None:
                        q = mk_cmp("eq", e, tok)
                        return [Assume(s._replace(tok=True), (q, True)), Assume(s._replace(tok=False), (q, False))]
                    return s
                if a == ("g", "a0_err_syscode", 0) and s.code is not None:
                    return Assume(s, (mk_cmp("eq", e, ("c", s.code)), True))
                if a[0] == "call" and a[2] == "__errno_location" and s.errno is not None:
                    return Assume(s, (mk_cmp("eq", e, ("c", s.errno)), True))
                if a == ("g", "A0_TIMEOUT_NEVER", 0):
                    return Assume(s, (is_zero(fn, i), True))
                return s
            if i.op == "store":
                a = ctx.shape(i.ops[1])
                k = ctx.const(i.ops[0])
                if a == ("g", "a0_err_syscode", 0):
                    return s._replace(code=k)
                if a == ISOWN:
                    if k == 1:
                        c.expect(s.own, "dead-result", i, "%s marks itself as holder without having taken the switch" % n, p())
                    return s._replace(isown=None if k is None else bool(k))
                if a == INOP:
                    return s._replace(inop=bool(k))
                if a == WORD:
                    c.bad("dead-take", i, "%s overwrites the state of the switch" % n, p())
                if a == TKN:
                    d = lin_add(fn.eshape(ctx.expr(i.ops[0])), ("ld", TKN, 8), 1, -1)
                    c.expect(s.own and d == ("c", 1), "dead-token", i, "%s changes the token by something other than one, or without holding the switch" % n, p())
                    return s._replace(bump=s.bump + 1, owed=True)
                return s
            if i.op == "atomicrmw":
                a = ctx.shape(i.ops[0])
                k = ctx.expr(i.ops[1])
                if a == TKN:
                    c.expect(s.own and i.raw["rmw"] == "add" and k == ("c", 1), "dead-token", i, "%s changes the token by something other than one, or without holding the switch" % n, p())
                    return s._replace(bump=s.bump + 1, owed=True)
                if a == WORD:
                    keep = k[1] & M32 if k[0] == "c" and i.raw["rmw"] == "and" else None
                    if keep == WAITERS:
                        c.expect(s.was, "dead-owner", i, "%s releases a switch the caller does not hold" % n, p())
                        c.expect(s.pend and not s.listed, "dead-bracket", i, "%s releases the switch while it is on the robust list, or unannounced" % n, p())
                        return s._replace(released=True, owed=True, own=False)
                    if keep is not None and keep & (DIED | TIDMASK) == DIED | TIDMASK:
                        c.expect(s.own, "dead-take", i, "%s changes the state of a switch it has not taken" % n, p())
                        return s._replace(clear=s.bump > 0 or s.clear)
                    c.bad("dead-take", i, "%s changes the state of the switch in a way no operation should" % n, p())
                return s
            if i.op == "cmpxchg" and ctx.shape(i.ops[0]) == WORD:
                old, new = ctx.expr(i.ops[1]), ctx.expr(i.ops[2])
                info = [w for w in s.words if old[0] == "load" and w[0] == old[1]]
                what = classify(old, new)
                ext0, ext1 = ("ext", ("cmpxchg", i.id), (0,)), ("ext", ("cmpxchg", i.id), (1,))
                yes = [(mk_cmp("eq", ext1, ("c", 0)), False), (mk_cmp("eq", ext0, old), True)]
                no = [(mk_cmp("eq", ext1, ("c", 0)), True), (mk_cmp("eq", ext0, old), False)]
                if what == "take" and info:
                    c.expect(info[0][1], "dead-take", i, "%s can take the switch from its holder" % n, p())
                    c.expect(s.pend, "dead-bracket", i, "%s takes the switch without having announced it to the robust list" % n, p())
                    c.expect(s.shut is False, "dead-shutdown", i, "%s can take the switch after shutdown was requested" % n, p())
                    return [Assume(s._replace(own=True, out=info[0][2], owed=True), *yes), Assume(s, *no)]
                if what == "announce" and info:
                    return [Assume(s._replace(conf=new, tok=None), *yes), Assume(s._replace(conf=None), *no)]
                c.bad("dead-take", i, "%s replaces the state of the switch by something no operation should" % n, p())
                return s
            if i.op not in ("call", "invoke"):
                return s
            if i.callee == "clock_gettime":
                return Assume(s, (is_zero(fn, i), True))
            if i.callee in KEEP[:4]:
                if not c.expect(ctx.shape(i.ops[0]) == MTX, "dead-bracket", i, "%s tells the robust list about another mutex" % n):
                    return s
                if i.callee == "a0_robust_op_start":
                    return s._replace(pend=True)
                if i.callee == "a0_robust_op_end":
                    c.expect(s.listed == (s.own or s.was and not s.released), "dead-bracket", i,
                             "%s ends the operation while the robust list does not say what is held" % n, p())
                    return s._replace(pend=False)
                if i.callee == "a0_robust_op_add":
                    c.expect(s.own and s.pend, "dead-bracket", i, "%s puts a switch on the robust list that it has not taken" % n, p())
                    return s._replace(listed=True)
                c.expect(s.was and s.pend and not s.released, "dead-owner", i, "%s takes apart the robust list for a switch the caller does not hold" % n, p())
                return s._replace(listed=False)
            fo = futex_op(fn, i)
            if fo is None:
                return s
            op, fl = fo
            c.expect(not fl & PRIVATE and ctx.shape(i.ops[1]) == WORD, "dead-notify", i, "%s uses a process-private or wrong futex" % n)
            res = fn.expr(("i", i.id))
            if op == WAKE:
                cnt = ctx.expr(i.ops[3])
                c.expect(cnt[0] == "c" and cnt[1] & M32 == 0x7fffffff, "dead-notify", i, "%s does not wake all waiters" % n)
                if s.own and not s.released:
                    c.expect(s.bump == 1 and s.clear, "dead-token", i,
                             "%s wakes the waiters before the new token is in place and earlier announcements are void" % n, p())
                # waking on a mapped, aligned word cannot fail
                return Assume(s._replace(owed=False, dead=True), (mk_cmp("eq", res, ("c", -1)), False))
            if not c.expect(op in (WAIT, WAIT_BITSET), "dead-sleep", i, "%s uses another futex operation" % n):
                return s
            c.expect(s.conf is not None and ctx.expr(i.ops[3]) == s.conf, "dead-sleep", i,
                     "%s sleeps on a state in which it has not announced itself as a waiter" % n, p())
            c.expect(s.shut is False, "dead-shutdown", i, "%s can sleep although shutdown was requested" % n, p())
            c.expect(s.inop, "dead-inop", i, "%s can sleep without shutdown knowing" % n, p())
            w = [x for x in s.words if s.conf is not None and ("load", x[0]) in [y[:2] for y in subs(s.conf)]]
            if kind == "taken":
                c.expect(bool(w) and (w[-1][1] or w[-1][2]), "dead-sleep", i, "%s sleeps although the switch is taken" % n, p())
            elif kind == "released":
                c.expect(bool(w) and not w[-1][1] and not w[-1][2], "dead-sleep", i, "%s sleeps although the switch is free" % n, p())
                c.expect(s.tok is True, "dead-token", i, "%s sleeps without having found its token unchanged after announcing itself" % n, p())
            elif kind == "take":
                c.expect(bool(w) and not w[-1][1], "dead-sleep", i,
                         "%s sleeps although the switch was free when it announced itself, so that nobody will wake it" % n, p())
            s2 = s._replace(conf=None, shut=None, words=(), tok=None)
            out = [Assume(s2._replace(out=None), (mk_cmp("eq", res, ("c", -1)), False), (mk_cmp("eq", res, ("c", 0)), True))]
            for e in (EAGAIN, ETIMEDOUT, OTHER):
                if e == ETIMEDOUT and ctx.expr(i.ops[4]) == ("c", 0):
                    continue
                out.append(Assume(s2._replace(errno=e, out=e if e != EAGAIN else None), (mk_cmp("eq", res, ("c", -1)), True)))
            return out

        def subs(e):
            yield e
            for x in e:
                if isinstance(x, tuple):
                    yield from subs(x)

        def on_ret(s, i, ctx):
            z = ctx.nonzero(i.ops[0])
            p = ex.path()
            c.expect(not s.pend, "dead-bracket", fn, "%s returns in the middle of a robust operation" % n, p)
            c.expect(not s.inop, "dead-inop", fn, "%s returns while still counted as running" % n, p)
            c.expect(not s.owed, "dead-notify", fn, "%s returns without having woken the waiters" % n, p)
            if s.shut is True:
                c.expect(z is True and s.code == ESHUTDOWN, "dead-shutdown", fn, "%s does not report that it was shut down" % n, p)
            if kind != "release" and not s.own and s.out not in (None, True, False):
                c.expect(z is True and s.code == s.out, "dead-error", fn, "%s does not report that the wait failed" % n, p)
            if kind == "take":
                if s.own:
                    c.expect(s.bump == 1 and s.isown is True and s.clear, "dead-token", fn, "%s takes the switch without a fresh token" % n, p)
                    c.expect(s.listed, "dead-bracket", fn, "%s takes the switch without putting it on the robust list" % n, p)
                    if s.out:
                        c.expect(z is True and s.code == EOWNERDEAD, "dead-result", fn, "%s does not say that the previous holder died" % n, p)
                    else:
                        c.expect(z is False, "dead-result", fn, "%s reports failure although it took the switch" % n, p)
                else:
                    c.expect(z is True and s.code != EOWNERDEAD or s.isown is True, "dead-result", fn, "%s can report success without having taken the switch" % n, p)
                    c.expect(s.bump == 0 and not s.listed, "dead-result", fn, "%s leaves traces of a take that failed" % n, p)
            elif kind == "release":
                if s.released:
                    c.expect(z is False and s.isown is False, "dead-owner", fn, "%s releases the switch but still counts as holder, or reports failure" % n, p)
                else:
                    c.expect(z is True, "dead-owner", fn, "%s reports success without having released the switch" % n, p)
            elif z is not True:
                w = s.words[-1] if s.words else None
                if kind == "taken":
                    c.expect(w is not None and not w[1] and not w[2], "dead-wait", fn, "%s can report that the switch is taken although it is not" % n, p)
                    c.expect(s.tokread, "dead-token", fn, "%s does not report the holder's token" % n, p)
                else:
                    c.expect(s.tok is False or w is not None and (w[1] or w[2]), "dead-wait", fn, "%s can report a release although nothing changed" % n, p)
                    if w is not None and w[2]:
                        c.expect(s.dead, "dead-notify", fn, "%s notices the holder's death and keeps it to itself (the kernel wakes only one waiter)" % n, p)
        ex = Explorer(fn, on_inst=on_inst, on_ret=on_ret, track=carriers(fn, {i.id for i in fn.order if i.op == "cmpxchg" or i.op == "load" and fn.shape(i.ops[0]) in (WORD, TKN, ISOWN, SHUT)}))
        st = START._replace(listed=True) if kind == "release" else START
        run(c, ex, st)
        if kind == "taken":
            # the reported token is the shared one
            outs = [i for i in fn.stores() if fn.shape(i.ops[0])[:2] == ("ld", TKN)]
            c.expect(bool(outs), "dead-token", fn, "%s does not report the holder's token" % n)


def shutdown(c):
    c.rule("dead-shutdown-call", "shutdown is requested first, and returns only once no operation is running, waking them as long as one is")
    c.rule("dead-close", "closing shuts down and releases before the memory goes away")
    v = view(c.prog)
    o = v.offset
    for n in ("a0_deadman_mtx_shutdown", "a0_deadman_close"):
        fn = c.use(v[n])
        base = ("arg", 0) if n != "a0_deadman_close" else lin_add(("arg", 0), ("c", o("a0_deadman_s._deadman_mtx")))
        at = lambda f: lin_add(base, ("c", o(f)))
        SHUT, INOP, ISOWN = at("a0_deadman_mtx_s._shutdown"), at("a0_deadman_mtx_s._inop"), at("a0_deadman_mtx_s._is_owner")
        stkn = ("ld", at("a0_deadman_mtx_s._stkn"), 8)
        WORD = lin_add(stkn, ("c", o("a0_deadman_mtx_shared_token_s._mtx") + o("a0_mtx_s.ftx")))

        # state: requested, idle seen since, wake owed, released (None: unknown ownership)
        def on_inst(s, i, ctx):
            req, idle, owed, held = s
            if i.op == "store" and ctx.shape(i.ops[1]) == SHUT:
                return (ctx.const(i.ops[0]) == 1, False, False, held)
            if i.op == "load" and ctx.shape(i.ops[0]) == INOP and req:
                if owed:
                    c.bad("dead-shutdown-call", i, "%s waits for a running operation without waking it" % n, ex.path())
                z = is_zero(fn, i)
                return [Assume((req, True, False, held), (z, True)), Assume((req, False, True, held), (z, False))]
            # before that a pending operation may still take it
            if i.op == "load" and ctx.shape(i.ops[0]) == ISOWN and held is None and req and idle:
                z = is_zero(fn, i)
                return [Assume((req, idle, owed, True), (z, False)), Assume((req, idle, owed, False), (z, True))]
            if i.op == "atomicrmw" and ctx.shape(i.ops[0]) == WORD and req and idle:
                return (req, idle, owed, False)
            fo = futex_op(fn, i)
            if fo and fo[0] == WAKE and ctx.shape(i.ops[1]) == WORD:
                cnt = ctx.expr(i.ops[3])
                if cnt[0] == "c" and cnt[1] & M32 == 0x7fffffff:
                    return (req, idle, False, held)
            if i.is_call("munmap", "close"):
                c.expect(req and idle, "dead-close", i, "%s lets go of the memory while an operation may be running" % n, ex.path())
                c.expect(held is False, "dead-close", i, "%s lets go of the memory while holding the switch" % n, ex.path())
            return s

        def on_ret(s, i, ctx):
            c.expect(s[0] and s[1], "dead-shutdown-call", fn, "%s can return while an operation is running" % n, ex.path())
        ex = Explorer(fn, on_inst=on_inst, on_ret=on_ret, track={i.id for i in fn.order if i.op in ("phi", "load")})
        run(c, ex, (False, False, False, None))
