"""C07, C08, C26: the robust mutex, the condition variable and the identity they are taken under."""
import collections

from engine.ir import lin_add
from rules.common import *

SYS_futex, SYS_gettid, SYS_set_robust_list = 202, 186, 273
WAIT, WAKE, LOCK_PI, UNLOCK_PI, TRYLOCK_PI, WAIT_BITSET, WAIT_REQUEUE_PI, CMP_REQUEUE_PI, LOCK_PI2 = 0, 1, 6, 7, 8, 9, 11, 12, 13
PRIVATE, CLOCK_RT = 128, 256
DIED, WAITERS, TIDMASK = 0x40000000, 0x80000000, 0x3fffffff
EPERM, EAGAIN, EBUSY, EINVAL, EDEADLK, ETIMEDOUT, EOWNERDEAD = 1, 11, 16, 22, 35, 110, 130
OTHER = 5  # stands for any other error code

KEEP = ["a0_robust_op_start", "a0_robust_op_end", "a0_robust_op_add", "a0_robust_op_del", "a0_tid"]
ROOTS = ["a0_mtx_timedlock", "a0_mtx_lock", "a0_mtx_trylock", "a0_mtx_unlock", "a0_cnd_timedwait", "a0_cnd_wait",
         "a0_cnd_signal", "a0_cnd_broadcast", "a0_mtx_lock_successful", "a0_mtx_previous_owner_died"]


def view(prog):
    return prog.view(ROOTS, KEEP)


def futex_op(fn, i):
    """(operation, flags) of a futex call, None for any other instruction"""
    if not i.is_call("syscall"):
        return None
    nr = fn.expr(i.ops[0])
    if nr[0] != "c":
        raise AnalysisBroken("system call number is not constant at " + i.where())
    if nr[1] != SYS_futex:
        return None
    o = fn.expr(i.ops[2])
    if o[0] != "c":
        raise AnalysisBroken("futex operation is not constant at " + i.where())
    return o[1] & ~(PRIVATE | CLOCK_RT), o[1] & (PRIVATE | CLOCK_RT)


OUTCOMES = {LOCK_PI: (ETIMEDOUT, OTHER), LOCK_PI2: (ETIMEDOUT, OTHER), TRYLOCK_PI: (EAGAIN, OTHER), UNLOCK_PI: (OTHER,),
            WAIT_REQUEUE_PI: (ETIMEDOUT, EAGAIN, OTHER), CMP_REQUEUE_PI: (EAGAIN, OTHER)}

St = collections.namedtuple("St", "held how pend listed errno code cas died old rel sample waited failed")
# held: owner of the mutex; how: None | "cas" | "kernel"; pend: announced to the robust list; listed: on it
# errno, code: what errno and the library's copy of it hold; cas: outcome of the last compare-and-swap
# died: owner-died bit of the word as read since the kernel handed the mutex over; old: the bit in the value a failed
# try returned; rel: mutex was released; sample: loads of the condition made before that; failed: unforeseen error
START = St(False, None, False, False, None, None, None, None, None, False, frozenset(), None, False)


def bits(e, mask):
    return ("and",) + tuple(sorted({e, ("c", mask)}, key=repr))


class Model:
    """the futex word and the robust list seen along one function"""

    def __init__(self, c, fn, mtx, cnd=None):
        self.c, self.fn = c, fn
        v = fn.view
        self.mtx = ("arg", mtx)
        self.word = lin_add(self.mtx, ("c", v.offset("a0_mtx_s.ftx")))
        self.cnd = ("arg", cnd) if cnd is not None else None
        self.loads = [i for i in fn.order if i.op == "load" and fn.expr(i.ops[0]) == self.word]
        self.tids = {i.id for i in fn.calls("a0_tid")}

    def is_tid(self, e):
        return e[0] == "call" and e[2] == "a0_tid"

    def owner_known(self, ctx):
        """the word was found to name the calling thread"""
        for f, t in ctx.facts:
            if t and f[0] == "cmp" and f[1] == "eq":
                for a, b in ((f[2], f[3]), (f[3], f[2])):
                    if self.is_tid(b) and a[0] == "and" and ("c", TIDMASK) in a[1:]:
                        if any(x[0] == "load" and self.fn.expr(self.fn.insts[x[1]].ops[0]) == self.word for x in a[1:]):
                            return True
        return False

    def run(self, init, on_ret, hook=None):
        fn, c = self.fn, self.c

        def on_inst(s, i, ctx):
            r = self.step(s, i, ctx)
            if hook:
                out = []
                for x in r if isinstance(r, list) else [r]:
                    if isinstance(x, Assume):
                        x.state = hook(s, x.state, i, ctx)
                    else:
                        x = hook(s, x, i, ctx)
                    out.append(x)
                return out
            return r
        self.ex = Explorer(fn, on_inst=on_inst, on_ret=on_ret, track={i.id for i in self.loads} | self.tids)
        run(c, self.ex, init)

    def bracket(self, s, i, what):
        self.c.expect(s.pend, "mtx-bracket", i, "%s %s without having announced it to the robust list" % (self.fn.name, what), self.ex.path())

    def acquired(self, s, how):
        return s._replace(held=True, how=how, died=None)

    def step(self, s, i, ctx):
        fn, c = self.fn, self.c
        E = ctx.expr
        if i.op in ("call", "invoke"):
            if i.callee == "clock_gettime":
                return Assume(s, (is_zero(fn, i), True))
            if i.callee in KEEP[:4]:
                if not c.expect(E(i.ops[0]) == self.mtx, "mtx-bracket", i, "%s tells the robust list about another mutex" % fn.name):
                    return s
                if i.callee == "a0_robust_op_start":
                    c.expect(not s.pend, "mtx-bracket", i, "%s starts a robust operation inside another" % fn.name, self.ex.path())
                    return s._replace(pend=True)
                if i.callee == "a0_robust_op_end":
                    if not s.failed:
                        c.expect(not s.rel or s.listed == s.held, "mtx-listed", i,
                                 "%s ends the operation while the robust list does not say what is held" % fn.name, self.ex.path())
                    return s._replace(pend=False)
                if i.callee == "a0_robust_op_add":
                    if not s.failed:
                        c.expect(s.held and s.rel, "mtx-listed", i, "%s puts a mutex on the robust list that it has not obtained" % fn.name, self.ex.path())
                        c.expect(not s.listed, "mtx-listed", i, "%s puts the mutex on the robust list twice" % fn.name, self.ex.path())
                    self.bracket(s, i, "changes the robust list")
                    return s._replace(listed=True)
                self.bracket(s, i, "changes the robust list")
                c.expect(s.listed and s.held, "mtx-listed", i, "%s takes the mutex off the robust list after giving it up" % fn.name, self.ex.path())
                c.expect(self.owner_known(ctx), "mtx-owner", i, "%s takes apart the robust list of a mutex the caller may not own" % fn.name, self.ex.path())
                return s._replace(listed=False)
            fo = futex_op(fn, i)
            if fo is not None:
                return self.futex(s, i, ctx, *fo)
            return s
        if i.op == "load":
            a = E(i.ops[0])
            v = ("load", i.id, fn.field_of(i))
            if a == ("g", "a0_err_syscode", 0):
                if s.code is not None:
                    return Assume(s, (mk_cmp("eq", v, ("c", s.code)), True))
                return s
            if a[0] == "call" and a[2] == "__errno_location":
                return Assume(s, (mk_cmp("eq", v, ("c", s.errno if s.errno is not None else OTHER)), True))
            if a == ("g", "A0_TIMEOUT_NEVER", 0):
                return Assume(s, (is_zero(fn, i), True))
            if a == self.word and s.how == "cas":
                return Assume(s, (mk_cmp("eq", bits(v, DIED), ("c", 0)), True))
            if a == self.word and s.how == "kernel" and not s.failed:
                e = bits(v, DIED)
                t = (s._replace(died=True), (mk_cmp("eq", e, ("c", DIED)), True))
                f = (s._replace(died=False), (mk_cmp("eq", e, ("c", 0)), True))
                if s.died is not None:
                    return Assume(*(t if s.died else f))
                return [Assume(*t), Assume(*f)]
            if self.cnd is not None and a == self.cnd and not s.rel:
                return s._replace(sample=s.sample | {i.id})
            return s
        if i.op == "store":
            a = E(i.ops[1])
            if a == ("g", "a0_err_syscode", 0):
                k = ctx.const(i.ops[0])
                return s._replace(code=k)
            if a == self.word:
                c.bad("mtx-word", i, "%s overwrites the mutex word" % fn.name, self.ex.path())
            return s
        if i.op == "atomicrmw":
            if E(i.ops[0]) == self.word:
                k = E(i.ops[1])
                ok = i.raw["rmw"] == "and" and k[0] == "c" and k[1] & (WAITERS | TIDMASK) == WAITERS | TIDMASK
                c.expect(ok and self.owner_known(ctx), "mtx-word", i, "%s changes owner or waiter bits of the mutex word" % fn.name, self.ex.path())
                self.bracket(s, i, "changes the mutex word")
                return s
            return s
        if i.op == "cmpxchg" and E(i.ops[0]) == self.word:
            self.bracket(s, i, "changes the mutex word")
            old, new = E(i.ops[1]), E(i.ops[2])
            ext0 = ("ext", ("cmpxchg", i.id), (0,))
            ext1 = ("ext", ("cmpxchg", i.id), (1,))
            if old == ("c", 0):
                c.expect(self.is_tid(new), "mtx-word", i, "%s takes the mutex under something other than the caller's thread id" % fn.name, self.ex.path())
                yes = Assume(self.acquired(s, "cas"), (mk_cmp("eq", ext1, ("c", 0)), False), (mk_cmp("eq", ext0, ("c", 0)), True))
                out = [yes]
                for d in (True, False):
                    b = bits(ext0, DIED)
                    out.append(Assume(s._replace(old=d), (mk_cmp("eq", ext1, ("c", 0)), True), (mk_cmp("eq", ext0, ("c", 0)), False),
                                      (mk_cmp("eq", b, ("c", DIED if d else 0)), True)))
                return out
            c.expect(self.is_tid(old) and new == ("c", 0), "mtx-word", i,
                     "%s replaces a mutex word that may say there are waiters, without the kernel" % fn.name, self.ex.path())
            self.releasing(s, i, ctx)
            return [Assume(s._replace(held=False, rel=True), (mk_cmp("eq", ext1, ("c", 0)), False), (mk_cmp("eq", ext0, old), True)),
                    Assume(s, (mk_cmp("eq", ext1, ("c", 0)), True), (mk_cmp("eq", ext0, old), False))]
        return s

    def releasing(self, s, i, ctx):
        c, fn = self.c, self.fn
        c.expect(self.owner_known(ctx), "mtx-owner", i, "%s can release a mutex the caller does not own" % fn.name, self.ex.path())
        c.expect(not s.listed, "mtx-listed", i, "%s gives the mutex up while it is still on the robust list" % fn.name, self.ex.path())
        c.expect(s.held, "mtx-released", i, "%s releases the mutex twice" % fn.name, self.ex.path())
        self.bracket(s, i, "releases the mutex")

    def futex(self, s, i, ctx, o, flags):
        c, fn = self.c, self.fn
        E = ctx.expr
        c.expect(not flags & PRIVATE, "mtx-shared", i, "%s uses a process-private futex on shared memory" % fn.name)
        res = fn.expr(("i", i.id))
        ok = [(mk_cmp("eq", res, ("c", -1)), False), (mk_cmp("eq", res, ("c", 0)), True)]
        ko = [(mk_cmp("eq", res, ("c", -1)), True)]
        fail = lambda st, e: Assume(st._replace(errno=e, failed=st.failed or e == OTHER), *ko)
        uaddr = E(i.ops[1])
        if o in (LOCK_PI, LOCK_PI2, TRYLOCK_PI):
            c.expect(uaddr == self.word, "mtx-word", i, "%s asks the kernel for another lock" % fn.name)
            self.bracket(s, i, "asks the kernel for the mutex")
            errs = [e for e in OUTCOMES[o] if e != ETIMEDOUT or E(i.ops[4]) != ("c", 0)]
            return [Assume(self.acquired(s, "kernel"), *ok)] + [fail(s._replace(waited=e), e) for e in errs]
        if o == UNLOCK_PI:
            c.expect(uaddr == self.word, "mtx-word", i, "%s asks the kernel to release another lock" % fn.name)
            self.releasing(s, i, ctx)
            return [Assume(s._replace(held=False, rel=True), *ok), fail(s._replace(rel=True, held=False), OTHER)]
        if o == WAIT_REQUEUE_PI:
            c.expect(uaddr == self.cnd and E(i.ops[5]) == self.word, "cnd-args", i, "%s waits on something other than its condition and mutex" % fn.name)
            self.bracket(s, i, "asks the kernel for the mutex")
            c.expect(s.rel and not s.held, "cnd-sample", i, "%s sleeps without having released the mutex" % fn.name, self.ex.path())
            val = E(i.ops[3])
            c.expect(val[0] == "load" and val[1] in s.sample, "cnd-sample", i,
                     "%s sleeps on a state of the condition that was not read before the mutex was released" % fn.name, self.ex.path())
            out = [Assume(self.acquired(s, "kernel")._replace(waited=0), *ok)]
            for e in OUTCOMES[o]:
                if e == ETIMEDOUT and E(i.ops[4]) == ("c", 0):
                    continue
                out.append(Assume(s._replace(waited=e, errno=e), *ko))
            return out
        if o == CMP_REQUEUE_PI:
            return [Assume(s._replace(waited=0), *ok)] + [fail(s._replace(waited=e), e) for e in OUTCOMES[o]]
        c.bad("mtx-word", i, "%s uses futex operation %d, which is not part of the locking protocol" % (fn.name, o))
        return s


def brules(c):
    c.rule("mtx-bracket", "every acquisition and release, and every change of the robust list, is announced to the robust list around it")
    c.rule("mtx-listed", "the mutex is on the owner's robust list exactly while it is held")
    c.rule("mtx-word", "the mutex word goes from free to the caller's id, and back from exactly the caller's id, or through the kernel")
    c.rule("mtx-owner", "only a thread the word names as owner releases the mutex")
    c.rule("mtx-shared", "futex operations work across processes")


def acquire(c):
    brules(c)
    c.rule("mtx-success", "a lock call reports success exactly when the caller became the owner")
    c.rule("mtx-died", "the death of the previous owner is reported to the next owner, and nothing else is reported as such")
    c.rule("mtx-busy", "a held mutex is reported as busy by the try-lock")
    c.rule("mtx-predicate", "the predicates on lock results accept success and owner-died only")
    v = view(c.prog)
    for n in ("a0_mtx_timedlock", "a0_mtx_lock", "a0_mtx_trylock"):
        fn = c.use(v[n])
        m = Model(c, fn, 0)

        def on_ret(s, i, ctx):
            z = ctx.nonzero(i.ops[0])
            p = m.ex.path()
            c.expect(not s.pend, "mtx-bracket", fn, "%s returns in the middle of a robust operation" % n, p)
            c.expect(s.listed == s.held, "mtx-listed", fn,
                     "%s returns %s" % (n, "with the mutex held but not on the robust list" if s.held else "with the mutex on the robust list although it is not held"), p)
            if not s.held:
                c.expect(z is True, "mtx-success", fn, "%s can report success although the mutex was not obtained" % n, p)
                c.expect(not (z is True and s.code == EOWNERDEAD), "mtx-died", fn, "%s can report a dead owner although the mutex was not obtained" % n, p)
                if n == "a0_mtx_trylock" and (s.old is False or s.waited == EAGAIN) and not s.failed:
                    c.expect(s.code == EBUSY, "mtx-busy", fn, "%s reports a held mutex as something other than busy" % n, p)
                if s.waited == ETIMEDOUT:
                    c.expect(s.code == ETIMEDOUT, "mtx-success", fn, "%s does not report that the time ran out" % n, p)
                return
            if s.how == "cas":
                c.expect(z is False, "mtx-success", fn, "%s can report failure although the mutex was obtained" % n, p)
                return
            if z is False:
                c.expect(s.died is False, "mtx-died", fn, "%s can report plain success without having found that the previous owner is alive" % n, p)
            elif c.expect(z is True, "mtx-success", fn, "%s has an unknown result after obtaining the mutex" % n, p):
                c.expect(s.code == EOWNERDEAD and s.died is True, "mtx-died" if s.died else "mtx-success", fn,
                         "%s can report failure although the mutex was obtained" % n, p)
        m.run(START._replace(rel=True), on_ret)
    # predicates on the result
    sysv = v.enum("A0_ERR_SYS")
    for n, zero in (("a0_mtx_lock_successful", True), ("a0_mtx_previous_owner_died", False)):
        fn = c.use(v[n])
        g = G(fn)
        ret = fn.rets()[0]
        r = g.val(ret.ops[0])
        err = mk("arg", 0)
        codes = [x for x in leaves(r) if x is not err]
        spec = lambda a, k: (a == 0 and zero) or (a == sysv and k == EOWNERDEAD)
        good = len(codes) <= 1
        for row, (val,) in tabulate([r], lambda x: (0, sysv, 3, 8) if x is err else (0, EBUSY, EOWNERDEAD, ETIMEDOUT)):
            c.rows += 1
            if bool(val) != bool(spec(row.get(err, 0), row.get(codes[0], 0) if codes else 0)):
                good = False
        c.expect(good and len(codes) == 1, "mtx-predicate", fn, "%s does not say exactly whether the lock was obtained%s" % (n, "" if zero else " from a dead owner"))


def release(c):
    brules(c)
    c.rule("mtx-released", "unlocking releases the mutex exactly once, through the kernel unless nobody waits")
    v = view(c.prog)
    fn = c.use(v["a0_mtx_unlock"])
    m = Model(c, fn, 0)
    n = fn.name

    def on_ret(s, i, ctx):
        z = ctx.nonzero(i.ops[0])
        p = m.ex.path()
        c.expect(not s.pend, "mtx-bracket", fn, "%s returns in the middle of a robust operation" % n, p)
        if z is not True:
            c.expect(s.rel and not s.held, "mtx-released", fn, "%s can report success without having released the mutex" % n, p)
        if not s.rel:
            c.expect(s.listed, "mtx-listed", fn, "%s takes a mutex it does not release off the robust list" % n, p)
    m.run(START._replace(held=True, listed=True), on_ret)


def cnd_wait(c):
    brules(c)
    c.rule("mtx-released", "the wait releases the mutex once before sleeping")
    c.rule("cnd-args", "the wait sleeps on its own condition and is moved to its own mutex")
    c.rule("cnd-sample", "the condition is sampled before the mutex is released")
    c.rule("cnd-reacquire", "the mutex is owned again on every return that follows its release")
    c.rule("cnd-result", "time-outs and dead owners are reported, wake-ups are not errors")
    c.rule("cnd-deadline", "an unusable deadline is refused before the mutex is released")
    v = view(c.prog)
    for n in ("a0_cnd_timedwait", "a0_cnd_wait"):
        fn = c.use(v[n])
        m = Model(c, fn, 1, 0)
        rels = set()

        def hook(s, s2, i, ctx):
            if s2.rel and not s.rel:
                rels.add(i.id)
            return s2

        def on_ret(s, i, ctx):
            z = ctx.nonzero(i.ops[0])
            p = m.ex.path()
            c.expect(not s.pend, "mtx-bracket", fn, "%s returns in the middle of a robust operation" % n, p)
            if not s.rel:
                c.expect(z is True, "cnd-result", fn, "%s can report success without having waited" % n, p)
                c.expect(s.listed, "mtx-listed", fn, "%s takes a mutex it does not release off the robust list" % n, p)
                return
            if s.waited == OTHER:
                c.expect(z is True, "cnd-result", fn, "%s can report success although the wait failed" % n, p)
            if s.failed:
                return
            c.expect(s.held, "cnd-reacquire", fn, "%s can return without owning the mutex" % n, p)
            c.expect(s.listed == s.held, "mtx-listed", fn, "%s can return with the mutex held but not on the robust list" % n, p)
            if not s.held:
                return
            if s.waited == ETIMEDOUT:
                c.expect(z is True and s.code in (ETIMEDOUT, EOWNERDEAD), "cnd-result", fn, "%s does not report that the time ran out" % n, p)
            elif s.waited == OTHER:
                pass
            elif s.how == "kernel" and s.died is not False:
                c.expect(z is True and s.code == EOWNERDEAD and s.died, "cnd-result", fn, "%s does not report that the previous owner died" % n, p)
            else:
                c.expect(z is False, "cnd-result", fn, "%s reports a wake-up as an error" % n, p)
        m.run(START._replace(held=True, listed=True), on_ret, hook)
        c.expect(bool(rels), "mtx-released", fn, "%s never releases the mutex" % n)
        c.expect(any(futex_op(fn, i) and futex_op(fn, i)[0] == WAIT_REQUEUE_PI for i in fn.calls("syscall")), "cnd-args", fn, "%s never sleeps" % n)
        if n != "a0_cnd_timedwait":
            continue
        # refused deadlines
        g = G(fn)
        T = mk("arg", 2)
        NS = 1000000000
        for i in [fn.insts[k] for k in sorted(rels)]:
            gd = g.guard(i)
            ls = leaves(gd)
            s_ = [x for x in ls if cell_addr(x) is T]
            n_ = [x for x in ls if cell_addr(x) is ADD(T, C(8))]
            if not c.expect(bool(s_) and bool(n_), "cnd-deadline", i, "%s releases the mutex whatever the deadline is" % n):
                continue

            def dom(x):
                if x in s_:
                    return (-1, 0, 1)
                if x in n_:
                    return (-1, 0, 1, NS - 1, NS, NS + 1)
                if x is T:
                    return (1,)
                return (0, 1)
            bad = OR(CMP("slt", 64, s_[0], ZERO), CMP("slt", 64, n_[0], ZERO), NOT(CMP("slt", 64, n_[0], C(NS))))
            c.implies("cnd-deadline", i, AND(gd, NOT(EQ(T, ZERO))), NOT(bad), dom, "%s releases the mutex although the deadline is unusable" % n)


def cell_addr(x):
    """address of the memory cell a leaf stands for"""
    if x.op == "ld":
        return x.a[0]
    return None


def cnd_wake(c):
    c.rule("cnd-bump", "signalling changes the condition's state before waking, so that a thread about to sleep does not")
    c.rule("cnd-wakes", "signalling asks the kernel to wake with the current state, and again as long as another thread changed it")
    c.rule("cnd-count", "a signal wakes at least one waiter, a broadcast all of them")
    c.rule("mtx-shared", "futex operations work across processes")
    v = view(c.prog)
    for n in ("a0_cnd_signal", "a0_cnd_broadcast"):
        fn = c.use(v[n])
        cnd, word = ("arg", 0), lin_add(("arg", 1), ("c", v.offset("a0_mtx_s.ftx")))

        # state: bumped, values known to be current {ids}, outcome of last request, code
        def on_inst(s, i, ctx):
            bump, cur, out, code, errno = s
            E = ctx.expr
            if i.op == "atomicrmw" and E(i.ops[0]) == cnd:
                k = E(i.ops[1])
                c.expect(i.raw["rmw"] in ("add", "sub") and k[0] == "c" and k[1] % 2 == 1, "cnd-bump", i, "%s does not change the condition's state" % n)
                val = ("rmw", i.id)
                val = lin_add(val, k, 1, 1 if i.raw["rmw"] == "add" else -1)
                return (True, val, out, code, errno)
            if i.op == "store" and E(i.ops[1]) == cnd:
                c.bad("cnd-bump", i, "%s changes the condition's state non-atomically" % n)
                return s
            if i.op == "load":
                a = E(i.ops[0])
                if a == cnd:
                    return (bump, ("load", i.id, fn.field_of(i)), out, code, errno)
                if a == ("g", "a0_err_syscode", 0) and code is not None:
                    return Assume(s, (mk_cmp("eq", ("load", i.id, fn.field_of(i)), ("c", code)), True))
                if a[0] == "call" and a[2] == "__errno_location" and errno is not None:
                    return Assume(s, (mk_cmp("eq", ("load", i.id, fn.field_of(i)), ("c", errno)), True))
                return s
            if i.op == "store" and E(i.ops[1]) == ("g", "a0_err_syscode", 0):
                return (bump, cur, out, ctx.const(i.ops[0]), errno)
            fo = futex_op(fn, i)
            if fo is None:
                return s
            o, fl = fo
            c.expect(not fl & PRIVATE, "mtx-shared", i, "%s uses a process-private futex on shared memory" % n)
            if not c.expect(o == CMP_REQUEUE_PI and E(i.ops[1]) == cnd and E(i.ops[5]) == word, "cnd-wakes", i,
                            "%s does not move waiters of its condition to its mutex" % n):
                return s
            c.expect(bump, "cnd-bump", i, "%s wakes before changing the condition's state" % n, ex.path())
            c.expect(E(i.ops[3]) == ("c", 1), "cnd-count", i, "%s must wake exactly one waiter directly" % n)
            cnt = E(i.ops[4])
            if n == "a0_cnd_broadcast":
                c.expect(cnt[0] == "c" and (cnt[1] & 0xffffffff) == 0x7fffffff, "cnd-count", i, "%s does not reach all waiters" % n)
            else:
                c.expect(cnt[0] == "c" and cnt[1] >= 0 , "cnd-count", i, "%s reaches no waiter" % n)
            c.expect(E(i.ops[6]) == cur, "cnd-wakes", i, "%s wakes with a stale state of the condition" % n, ex.path())
            res = fn.expr(("i", i.id))
            r = [Assume((bump, cur, 0, code, None), (mk_cmp("eq", res, ("c", -1)), False), (mk_cmp("eq", res, ("c", 0)), True))]
            for e in (EAGAIN, OTHER):
                r.append(Assume((bump, None if e == EAGAIN else cur, e, code, e), (mk_cmp("eq", res, ("c", -1)), True)))
            return r

        def on_ret(s, i, ctx):
            c.expect(s[2] is not None and s[2] != EAGAIN, "cnd-wakes", fn, "%s can return without having woken anybody" % n, ex.path())
        ex = Explorer(fn, on_inst=on_inst, on_ret=on_ret, track={i.id for i in fn.order if i.op in ("phi", "load", "atomicrmw")})
        run(c, ex, (False, None, None, None, None))


# ------------------------------------------------------------------------------- robust list and identity

RB = ["a0_robust_op_start", "a0_robust_op_end", "a0_robust_op_add", "a0_robust_op_del", "a0_tid"]


def rview(prog):
    return prog.view(RB, [], address_taken=True)


def robust_list(c):
    c.rule("robust-pending", "the mutex is announced before, and withdrawn after, the operation")
    c.rule("robust-add", "the list stays well formed at every instruction of an insertion")
    c.rule("robust-del", "the list stays well formed at every instruction of a removal")
    v = rview(c.prog)
    H = mk("g", "a0_robust_head")
    o = v.offset
    PEND = ADD(H, C(o("robust_list_head.list_op_pending")))
    NEXT = ADD(H, C(o("robust_list_head.list")))
    mn, mp = o("a0_mtx_s.next"), o("a0_mtx_s.prev")
    A = mk("arg", 0)

    def last(fn, g, addr):
        return g.before(fn.rets()[0], addr, 8)
    fn = c.use(v["a0_robust_op_start"])
    g = G(fn)
    c.expect(last(fn, g, PEND) is A, "robust-pending", fn, "starting an operation does not announce the mutex")
    st = [i for i in fn.stores() if g.addr_of(i) is PEND]
    c.expect(fence_between(fn, st, fn.rets()), "robust-pending", fn, "the announcement is not ordered before the operation")
    fn = c.use(v["a0_robust_op_end"])
    g = G(fn)
    c.expect(last(fn, g, PEND) is ZERO, "robust-pending", fn, "ending an operation does not withdraw the announcement")
    st = [i for i in fn.stores() if g.addr_of(i) is PEND]
    c.expect(bool(st) and all(fence_before(fn, i) for i in st), "robust-pending", fn, "the withdrawal is not ordered after the operation")
    c.expect(all(g.addr_of(i) is PEND for i in fn.stores()), "robust-pending", fn, "ending an operation changes something else")
    # insertion at the front
    fn = c.use(v["a0_robust_op_add"])
    g = G(fn)
    e = fn.blocks[0][0]
    first = g.before(e, NEXT, 8)
    c.expect(last(fn, g, NEXT) is A, "robust-add", fn, "the mutex does not become the first of the list")
    c.expect(last(fn, g, ADD(A, C(mn))) is first, "robust-add", fn, "the mutex is not linked to the rest of the list")
    c.expect(last(fn, g, ADD(A, C(mp))) is H, "robust-add", fn, "the mutex is not linked back to the list head")
    hs = [i for i in fn.stores() if g.addr_of(i) is NEXT]
    ns = [i for i in fn.stores() if g.addr_of(i) is ADD(A, C(mn))]
    c.expect(bool(hs) and bool(ns) and all(fence_between(fn, [n], [h]) for h in hs for n in ns), "robust-add", fn,
             "the mutex becomes reachable before its own link is in place")
    back = [i for i in fn.stores() if g.addr_of(i) is ADD(first, C(mp))]
    nothead = NOT(EQ(first, H))
    c.expect(bool(back) and all(g.val(i.ops[0]) is A for i in back) and OR(*[g.guard(i) for i in back]) is nothead, "robust-add", fn,
             "the previous first entry is not linked back to the mutex exactly when there is one")
    # removal
    fn = c.use(v["a0_robust_op_del"])
    g = G(fn)
    e = fn.blocks[0][0]
    prev, nxt = g.before(e, ADD(A, C(mp)), 8), g.before(e, ADD(A, C(mn)), 8)
    up = [i for i in fn.stores() if g.addr_of(i) is ADD(prev, C(mn))]
    c.expect(len(up) == 1 and g.val(up[0].ops[0]) is nxt and g.guard(up[0]) is ONE, "robust-del", fn, "the predecessor is not linked past the mutex")
    dn = [i for i in fn.stores() if g.addr_of(i) is ADD(nxt, C(mp))]
    c.expect(bool(dn) and all(g.val(i.ops[0]) is prev for i in dn) and OR(*[g.guard(i) for i in dn]) is NOT(EQ(nxt, H)), "robust-del", fn,
             "the successor is not linked back past the mutex exactly when there is one")
    c.expect(all(i in up + dn for i in fn.stores()), "robust-del", fn, "removal changes something else")


def is_fence(i):
    return i.op == "fence" or i.op == "atomicrmw" and i.raw.get("ord") == "seq_cst" or i.op == "asm"


def fence_before(fn, i):
    """a fence on every path from the entry to i"""
    return fn.reaching(i, lambda x: ("f",) if is_fence(x) else None) == [("f",)]


def fence_between(fn, frm, to):
    """every path from each of `frm` to each of `to` passes a fence, and `to` is only reached after `frm`"""
    if not frm or not to:
        return False
    for t in to:
        d = fn.reaching(t, lambda x: ("f",) if is_fence(x) else ("s",) if x in frm else None)
        if d != [("f",)]:
            return False
        for f in [x for x in fn.order if is_fence(x)]:
            if fn.can_reach(f, t):
                if fn.reaching(f, lambda x: ("s",) if x in frm else None) != [("s",)]:
                    return False
    return True


def identity(c):
    c.rule("id-tls", "thread id and robust list are kept per thread")
    c.rule("id-refresh", "a forked child forgets its parent's thread id and robust list")
    c.rule("id-source", "the id is the kernel's id of the calling thread")
    c.rule("id-registered", "the robust list is set up and registered with the kernel before it is used")
    v = rview(c.prog)
    fn = c.use(v["a0_tid"])
    g = G(fn)
    gets = [i for i in fn.calls("syscall") if fn.expr(i.ops[0]) == ("c", SYS_gettid)] + fn.calls("gettid")
    if not c.expect(bool(gets), "id-source", fn, "a0_tid never asks the kernel for the id"):
        return
    # where the id is cached: cells the kernel's answer is stored to
    caches = set()
    for s in fn.stores():
        e = fn.expr(s.ops[0])
        if e[0] == "call" and fn.insts[e[1]] in gets:
            a = fn.expr(s.ops[1])
            if c.expect(a[0] == "g", "id-source", s, "the thread id is stored in an unknown place"):
                caches.add(a)
    for i in fn.stores():
        e, a = fn.expr(i.ops[0]), fn.expr(i.ops[1])
        if a in caches:
            c.expect(e[0] == "call" and fn.insts[e[1]] in gets, "id-source", i, "the thread id is overwritten by something else")

    # on every return: the answer, or the cache when it was found to be set
    def on_inst(s, i, ctx):
        if i in gets:
            return "asked"
        if i.op == "load" and fn.expr(i.ops[0]) in caches and s != "asked":
            z = is_zero(fn, i)
            return [Assume("set", (z, False)), Assume("empty", (z, True))] if s == "new" else Assume(s, (z, s == "empty"))
        return s

    def on_ret(s, i, ctx):
        e = ctx.expr(i.ops[0])
        ok = e[0] == "call" and fn.insts[e[1]] in gets or e[0] == "load" and fn.expr(fn.insts[e[1]].ops[0]) in caches
        c.expect(ok and s in ("asked", "set"), "id-source", fn, "a0_tid can return something other than the calling thread's id", ex.path())
    ex = Explorer(fn, on_inst=on_inst, on_ret=on_ret)
    run(c, ex, "new")
    if caches:
        reset_at_fork(c, v, fn, {a[1] for a in caches}, [i for i in fn.stores() if fn.expr(i.ops[1]) in caches], "thread id")
    # robust list
    fn = c.use(v["a0_robust_op_start"])
    g = G(fn)
    regs = [i for i in fn.calls("syscall") if fn.expr(i.ops[0]) == ("c", SYS_set_robust_list)]
    if not c.expect(bool(regs), "id-registered", fn, "the robust list is never registered with the kernel"):
        return
    heads = {fn.expr(i.ops[1]) for i in regs}
    H = ("g", "a0_robust_head", 0)
    for i in regs:
        h = fn.expr(i.ops[1])
        c.expect(h[0] == "g" and fn.expr(i.ops[2]) == ("c", v.sizeof("robust_list_head")), "id-registered", i, "the registered list head is not the thread's")
        hb = ADD(mk("g", h[1]), C(h[2])) if h[0] == "g" else None
        if hb is None:
            continue
        tls(c, v, fn, {h[1]})
        lst = g.before(i, hb, 8)
        off = g.before(i, ADD(hb, C(v.offset("robust_list_head.futex_offset"))), 8)
        pen = g.before(i, ADD(hb, C(v.offset("robust_list_head.list_op_pending"))), 8)
        c.expect(lst is hb, "id-registered", i, "the list is registered before it is made empty")
        c.expect(off is C(v.offset("a0_mtx_s.ftx")), "id-registered", i, "the kernel is told a wrong place for the mutex word")
        c.expect(pen is ZERO, "id-registered", i, "the list is registered with an operation pending")
    # every path that announces an operation has registered, now or before
    flags = set()

    def on_inst(s, i, ctx):
        if i in regs:
            return ("reg", s[1])
        if i.op == "load" and i.ops[0][0] != "c":
            a = fn.expr(i.ops[0])
            if a[0] == "g" and a[1] not in {h[1] for h in heads} and v.globals.get(a[1], {}).get("tls"):
                z = is_zero(fn, i)
                if s[0] == "reg":
                    return s
                flags.add(a)
                return [Assume(("set", a), (z, False)), Assume(("no", a), (z, True))]
        if i.op == "store" and fn.expr(i.ops[1])[0] == "g" and fn.expr(i.ops[1])[1] in {h[1] for h in heads}:
            e = fn.expr(i.ops[0])
            if e == ("arg", 0):
                c.expect(s[0] in ("reg", "set"), "id-registered", i, "an operation is announced on a list the kernel does not know", ex.path())
        return s
    ex = Explorer(fn, on_inst=on_inst)
    run(c, ex, ("no", None))
    if c.expect(bool(flags), "id-registered", fn, "nothing records that the calling thread's list is registered"):
        sets = [i for i in fn.stores() if fn.expr(i.ops[1]) in flags]
        for s in sets:
            z = fn.expr(s.ops[0])
            if z[0] == "c" and z[1] == 0:
                continue
            # set only on paths that register
            d = fn.reaching(s, lambda x: ("r",) if x in regs else None)
            d2 = ("entry",) in d and not any(fn.can_reach(s, r) and not fn.can_reach(r, s) for r in regs)
            c.expect(not d2, "id-registered", s, "the list is marked as registered without being registered")
        reset_at_fork(c, v, fn, {a[1] for a in flags}, sets, "robust list")


def tls(c, v, fn, names):
    for n in names:
        g = v.globals.get(n)
        c.expect(bool(g and g.get("tls")), "id-tls", fn, "%s is shared between threads" % n)


def reset_at_fork(c, v, fn, cells, sets, what):
    """every path that fills the cache has made sure (once) that fork clears it"""
    tls(c, v, fn, cells)
    regs = []
    for i in fn.calls("pthread_once", "pthread_atfork"):
        if i.callee == "pthread_atfork":
            h, r = None, i
        else:
            h = fn.expr(i.ops[1])
            h = v.get(h[1]) if h[0] == "f" else None
            r = None
            for j in h.calls("pthread_atfork") if h else []:
                if j.block in [0] or len(h.blocks) == 1:
                    r = j
            if r is None:
                continue
        ch = r.fn.expr(r.ops[2])
        ch = v.get(ch[1]) if ch[0] == "f" else None
        if ch is None:
            continue
        done = {ch.expr(s.ops[1])[1] for s in ch.stores() if s.block == 0 and ch.expr(s.ops[0]) == ("c", 0) and ch.expr(s.ops[1])[0] == "g"}
        if cells <= done:
            regs.append(i)
            c.use(ch)
    if not c.expect(bool(regs), "id-refresh", fn, "nothing makes a forked child forget its parent's %s" % what):
        return

    # a path that fills the cache must also register the handler
    def on_inst(s, i, ctx):
        if i in regs:
            return (s[0], True)
        if i in sets:
            return (True, s[1])
        return s

    def on_ret(s, i, ctx):
        c.expect(not s[0] or s[1], "id-refresh", fn, "the %s is remembered without making a forked child forget it" % what, ex.path())
    ex = Explorer(fn, on_inst=on_inst, on_ret=on_ret)
    run(c, ex, (False, False))
