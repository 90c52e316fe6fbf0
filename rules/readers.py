"""C12, C13: readers."""
import collections

from engine.ir import lin_add
from rules.common import *
from rules.mutex import EOWNERDEAD

TAPI = ["a0_transport_" + x for x in
        ("init", "lock", "unlock", "shutdown", "shutdown_requested", "empty", "nonempty", "iter_valid", "jump", "jump_head", "jump_tail", "has_next",
         "step_next", "has_prev", "step_prev", "wait", "timedwait", "empty_pred", "nonempty_pred", "has_next_pred", "seq_low", "seq_high", "frame",
         "alloc", "alloc_evicts", "allocator", "commit", "used_space", "resize", "clear")]
KEEP = TAPI + ["a0_packet_deserialize", "a0_event_set", "a0_event_wait", "a0_event_timedwait", "a0_event_is_set", "a0_tid", "a0_packet_callback_call",
               "a0_alloc", "a0_dealloc"]
SYNC = {"a0_reader_sync_zc_read": "poll", "a0_reader_sync_zc_read_blocking": "block", "a0_reader_sync_zc_read_blocking_timeout": "block",
        "a0_reader_sync_read": "poll", "a0_reader_sync_read_blocking": "block", "a0_reader_sync_read_blocking_timeout": "block"}
# what the transport looks like from the cursor: empty; cursor overtaken or never placed; cursor on the last message; cursor before others
E, I, VL, VN = "E", "I", "VL", "VN"
ALL = (E, I, VL, VN)
TESTS = {"a0_transport_empty": lambda s: s == E, "a0_transport_nonempty": lambda s: s != E, "a0_transport_iter_valid": lambda s: s in (VL, VN),
         "a0_transport_has_next": lambda s: s in (I, VN)}
PREDS = {"a0_transport_empty_pred": lambda s: s == E, "a0_transport_nonempty_pred": lambda s: s != E, "a0_transport_has_next_pred": lambda s: s in (I, VN)}
ZC = "a0_zero_copy_callback_s.fn"

St = collections.namedtuple("St", "lock cur base moves cells given done first failed out")


def local(a):
    return a[0] == "alloca" or a[0] == "lin" and len(a[2]) == 1 and a[2][0][0][0] == "alloca" and a[2][0][1] == 1


def put(cells, k, x):
    return frozenset([(a, b) for a, b in cells if a != k] + [(k, x)])


def opt_names(v):
    return {"OLDEST": v.enum("A0_INIT_OLDEST"), "MOST_RECENT": v.enum("A0_INIT_MOST_RECENT"), "AWAIT_NEW": v.enum("A0_INIT_AWAIT_NEW")}, \
        {"NEXT": v.enum("A0_ITER_NEXT"), "NEWEST": v.enum("A0_ITER_NEWEST")}


class Model:
    """steps of a reader over the abstract transport"""

    def __init__(self, c, fn, init, it, rule, label):
        self.c, self.fn, self.init, self.it, self.rule = c, fn, init, it, rule
        self.label = label

    def need(self, s):
        """only something newer than the cursor may be delivered"""
        return s.done or self.init == "AWAIT_NEW"

    def readable(self, s):
        return s.cur in (I, VN) if self.need(s) else s.cur != E

    def right_moves(self, s):
        m = s.moves
        if s.base == I and (m == ("step_next",) or m == ("jump_head",)) and (not s.done or self.it == "NEXT"):
            return True
        if s.base == I and self.it == "NEWEST" and m == ("jump_tail",):
            return True
        if self.need(s):
            if s.base != VN:
                return False
            if self.it == "NEXT":
                return m == ("step_next",)
            return bool(m) and m[-1] == "jump_tail" or bool(m) and set(m) == {"step_next"} and s.cur == VL
        return s.base in (VL, VN) and m == ()

    def test(self, s, i, ctx):
        """a call into the transport; list of outcomes or None"""
        c, fn = self.c, self.fn
        n = i.callee
        z = is_zero(fn, i)
        if n in TESTS:
            return Assume(s._replace(cells=put(s.cells, ctx.shape(i.ops[1]), TESTS[n](s.cur))), (z, True))
        if n in ("a0_transport_jump_head", "a0_transport_jump_tail", "a0_transport_step_next", "a0_transport_step_prev", "a0_transport_jump"):
            m = n[len("a0_transport_"):]
            works = s.cur != E if m.startswith("jump_") else s.cur in (I, VN) if m == "step_next" else None
            if works is False:
                return Assume(s, (z, False))
            nxt = (VL,) if m == "jump_tail" else (VL, VN)
            moves = (s.moves + (m,))[-3:]
            out = [Assume(s._replace(cur=k, base=s.cur if not s.moves else s.base, moves=moves), (z, True)) for k in nxt]
            return out
        if n in ("a0_transport_wait", "a0_transport_timedwait"):
            p = pred_of(fn, i, ctx)
            P = PREDS.get(p, lambda s: True)
            c.expect(not s.failed, self.rule + "-stop", i, "%s waits again after a wait failed" % self.label, ex_path(self))
            c.expect(not s.moves or s.given, self.rule + "-first" if not s.done else self.rule + "-next", i,
                     "%s moves on to a message and then waits instead of delivering it" % self.label, ex_path(self))
            c.expect(not self.readable(s) or P(s.cur), self.rule + "-ready", i,
                     "%s can wait although there is a message to deliver (%s)" % (self.label, self.case(s)), ex_path(self))
            out = []
            for k in ALL:
                # a wait for what is already so returns at once
                if P(k) and self.possible(s, k) and (p not in PREDS or k == s.cur or not P(s.cur)):
                    out.append(Assume(s._replace(cur=k, base=k, moves=()), (z, True)))
            out.append(Assume(s._replace(failed=True), (z, False)))
            return out
        return None

    def possible(self, s, k):
        return True

    def case(self, s):
        d = {E: "empty", I: "cursor overtaken", VL: "cursor on the last message", VN: "more messages after the cursor"}
        return "%s, %s, %s, %s" % (self.init, self.it, "later message" if s.done else "first message", d.get(s.base or s.cur, "unlocked"))

    def deliver(self, s, i):
        c = self.c
        rule = self.rule + ("-next" if s.done else "-first")
        c.expect(not s.failed, self.rule + "-stop", i, "%s delivers a message although waiting failed" % self.label, ex_path(self))
        if s.cur is None:
            return
        c.expect(self.right_moves(s) and s.cur in (VL, VN), rule, i, "%s delivers the wrong message (%s)" % (self.label, self.case(s)), ex_path(self))


def ex_path(m):
    return m.ex.path()


def pred_of(fn, i, ctx):
    """the transport predicate a wait is for"""
    todo = [ctx.expr(i.ops[2])]
    names = set()
    seen = set()
    while todo:
        e = todo.pop()
        if e in seen or not isinstance(e, tuple):
            continue
        seen.add(e)
        if e[0] == "call" and len(e) > 2 and isinstance(e[2], str) and e[2].endswith("_pred"):
            names.add(e[2])
            continue
        if e[0] == "f":
            names.add(e[1])
        todo += [x for x in e if isinstance(x, tuple)]
    return names.pop() if len(names) == 1 else None


def bool_facts(fn, i, x):
    e = ("load", i.id, fn.field_of(i))
    return [(is_zero(fn, i), not x), (mk_cmp("eq", e, ("c", 0)), not x)]


def sync_reads(c):
    c.rule("read-first", "the first message delivered is the one the start mode asks for")
    c.rule("read-next", "each later message is the next one, or the newest, and never the same one again")
    c.rule("read-ready", "a read delivers when there is something to deliver, and waits or says 'nothing yet' when there is not")
    c.rule("read-stop", "nothing is delivered after waiting failed")
    c.rule("read-once", "a read delivers exactly once if it succeeds and not at all if it fails")
    c.rule("read-content", "what is delivered is the message at the cursor, whole")
    v = c.prog.view(list(SYNC), KEEP)
    inits, iters = opt_names(v)
    o = v.offset
    again = v.enum("A0_ERR_AGAIN")
    for n, kind in SYNC.items():
        fn = c.use(v[n])
        copying = "_zc_" not in n
        R = ("arg", 0)
        zc = lin_add(R, ("c", o("a0_reader_sync_s._reader_sync_zc"))) if copying else R
        oi = lin_add(zc, ("c", o("a0_reader_sync_zc_s._opts") + o("a0_reader_options_s.init")))
        ot = lin_add(zc, ("c", o("a0_reader_sync_zc_s._opts") + o("a0_reader_options_s.iter")))
        od = lin_add(zc, ("c", o("a0_reader_sync_zc_s._first_read_done")))
        tp = lin_add(zc, ("c", o("a0_reader_sync_zc_s._transport")))
        for init, it, done in [(a, b, d) for a in inits for b in iters for d in (False, True)]:
            m = Model(c, fn, init, it, "read", n)

            def on_inst(s, i, ctx):
                p = ex.path
                if i.op == "load":
                    a = ctx.shape(i.ops[0])
                    e = ("load", i.id, fn.field_of(i))
                    if a == oi:
                        return Assume(s, (mk_cmp("eq", e, ("c", inits[init])), True))
                    if a == ot:
                        return Assume(s, (mk_cmp("eq", e, ("c", iters[it])), True))
                    if a == od:
                        return Assume(s, *bool_facts(fn, i, s.first))
                    for k, x in s.cells:
                        if k == a:
                            return Assume(s, *bool_facts(fn, i, x))
                    return s
                if i.op == "store":
                    a = ctx.shape(i.ops[1])
                    if a == od:
                        return s._replace(first=ctx.nonzero(i.ops[0]) is True)
                    if local(a):
                        z = ctx.nonzero(i.ops[0])
                        rest = frozenset(x for x in s.cells if x[0] != a)
                        return s._replace(cells=put(s.cells, a, z) if z is not None else rest)
                    return s
                if i.op not in ("call", "invoke"):
                    return s
                z = is_zero(fn, i)
                if i.callee == "a0_transport_lock":
                    ok = [Assume(s._replace(lock="held", cur=k, base=k), (z, True)) for k in ALL]
                    return ok + [Assume(s._replace(lock="no", failed=True), (z, False))]
                if i.callee == "a0_transport_unlock":
                    return Assume(s._replace(lock="done", base=s.base or s.cur), (z, True))
                if s.lock == "held" and i.callee in TAPI:
                    r = m.test(s, i, ctx)
                    if r is not None:
                        return r
                    if i.callee == "a0_transport_frame":
                        return Assume(s, (z, s.cur in (VL, VN)))
                    return s
                user = is_indirect(i) and fptr_role(fn, i, ctx.env) == ZC
                if user or copying and i.callee == "a0_packet_deserialize":
                    m.deliver(s, i)
                    c.expect(s.lock == "held", "read-once", i, "%s delivers a message without the lock" % n, p())
                    c.expect(not s.given, "read-once", i, "%s delivers twice" % n, p())
                    j = 2 if user else 0
                    data, size = ctx.shape(i.ops[j]), ctx.shape(i.ops[j + 1])
                    content(c, fn, i, n, ctx, data, size, v)
                    s = s._replace(given=True)
                    if user:
                        return s
                    c.expect(ctx.shape(i.ops[3]) == ("arg", len(fn.params) - 1), "read-content", i, "%s does not read into the packet it was given" % n)
                    return [Assume(s._replace(out=False), (z, True)), Assume(s._replace(out=True), (z, False))]
                return s

            def on_ret(s, i, ctx):
                p = ex.path()
                z = ctx.nonzero(i.ops[0])
                bad = s.failed or s.out is True
                if bad:
                    c.expect(z is True, "read-once", fn, "%s reports success although it failed" % n, p)
                    c.expect(s.out is True or not s.given, "read-once", fn, "%s fails but has delivered a message" % n, p)
                    if not s.given:
                        c.expect(s.first == done, "read-first", fn, "%s takes a failed read for the first one" % n, p)
                    return
                if s.given:
                    c.expect(z is not True, "read-once", fn, "%s reports failure although it delivered" % n, p)
                    c.expect(s.first, "read-next", fn, "%s does not remember that it has delivered its first message" % n, p)
                    return
                here = s._replace(cur=s.base, done=done)
                c.expect(kind == "poll" and not m.readable(here), "read-ready", fn,
                         "%s returns without delivering although there is a message (%s)" % (n, m.case(s)) if kind == "poll" else
                         "%s returns although nothing was delivered and no wait failed (%s)" % (n, m.case(s)), p)
                c.expect(z is True and ctx.const(i.ops[0]) == again, "read-ready", fn, "%s does not say that there is nothing yet" % n, p)
                c.expect(s.first == done and not s.moves, "read-first", fn, "%s moves on although there is nothing to deliver" % n, p)
            ex = Explorer(fn, on_inst=on_inst, on_ret=on_ret)
            m.ex = ex
            run(c, ex, St(None, None, None, (), frozenset(), False, done, done, False, None))


def content(c, fn, i, n, ctx, data, size, v):
    """data and size are those of the frame obtained under this lock"""
    fd, fs = v.offset("a0_transport_frame_s.data"), v.offset("a0_transport_frame_hdr_s.data_size")
    fr = lin_add(data, ("c", -fd))
    ok = size in (("ld", lin_add(fr, ("c", fs)), 8),) and "a0_transport_frame" in str(fr)
    c.expect(ok, "read-content", i, "%s delivers something other than the message at the cursor" % n)


def can_read(c):
    c.rule("read-agrees", "what is reported as readable is what a read would deliver")
    for n in ("a0_reader_sync_zc_can_read", "a0_reader_sync_can_read"):
        v = c.prog.view([n], KEEP)
        inits, iters = opt_names(v)
        o = v.offset
        fn = c.use(v[n])
        zc = ("arg", 0) if "_zc_" in n else lin_add(("arg", 0), ("c", o("a0_reader_sync_s._reader_sync_zc")))
        oi = lin_add(zc, ("c", o("a0_reader_sync_zc_s._opts") + o("a0_reader_options_s.init")))
        od = lin_add(zc, ("c", o("a0_reader_sync_zc_s._first_read_done")))
        for init, done in [(a, d) for a in inits for d in (False, True)]:
            m = Model(c, fn, init, "NEXT", "read", n)

            def on_inst(s, i, ctx):
                if i.op == "load":
                    a = ctx.shape(i.ops[0])
                    if a == oi:
                        return Assume(s, (mk_cmp("eq", ("load", i.id, fn.field_of(i)), ("c", inits[init])), True))
                    if a == od:
                        return Assume(s, *bool_facts(fn, i, done))
                    for k, x in s.cells:
                        if k == a:
                            return Assume(s, *bool_facts(fn, i, x))
                    return s
                if i.op == "store":
                    a = ctx.shape(i.ops[1])
                    if local(a) or a == ("arg", 1):
                        z = ctx.nonzero(i.ops[0])
                        if z is not None:
                            return s._replace(cells=put(s.cells, a, z))
                    return s
                if i.op not in ("call", "invoke"):
                    return s
                z = is_zero(fn, i)
                if i.callee == "a0_transport_lock":
                    return [Assume(s._replace(lock="held", cur=k, base=k), (z, True)) for k in ALL] + [Assume(s._replace(lock="no"), (z, False))]
                if i.callee == "a0_transport_unlock":
                    return Assume(s._replace(lock="done"), (z, True))
                if s.lock == "held" and i.callee in TESTS:
                    return m.test(s, i, ctx)
                if i.callee in ("a0_transport_jump_head", "a0_transport_jump_tail", "a0_transport_step_next", "a0_transport_step_prev", "a0_transport_jump",
                                "a0_transport_wait", "a0_transport_timedwait"):
                    c.bad("read-agrees", i, "%s moves the cursor or waits" % n, ex.path())
                return s

            def on_ret(s, i, ctx):
                z = ctx.nonzero(i.ops[0])
                if s.lock == "no":
                    c.expect(z is True, "read-agrees", fn, "%s succeeds although the transport could not be locked" % n, ex.path())
                    return
                got = dict(s.cells).get(("arg", 1))
                c.expect(z is False and got is m.readable(s), "read-agrees", fn,
                         "%s does not agree with what a read would do (%s)" % (n, m.case(s)), ex.path())
            ex = Explorer(fn, on_inst=on_inst, on_ret=on_ret)
            m.ex = ex
            run(c, ex, St(None, None, None, (), frozenset(), False, done, done, False, None))


def thread_fn(c):
    v = c.prog.view(["a0_reader_zc_init"], KEEP)
    fn = v["a0_reader_zc_init"]
    pc = fn.calls("pthread_create")
    if not pc:
        raise AnalysisBroken("a0_reader_zc_init starts no thread")
    e = fn.expr(pc[0].ops[2])
    if e[0] != "f":
        raise AnalysisBroken("the reader thread's function is not known")
    c.expect(fn.expr(pc[0].ops[3]) == ("arg", 0), "thread-main", pc[0], "the reader's thread is not given the reader")
    return e[1]


def placing(c):
    """constructors put the cursor where the start mode says"""
    c.rule("read-place", "construction places the cursor as the start mode says and remembers the options")
    v = c.prog.view(["a0_reader_sync_zc_init", "a0_reader_zc_init", "a0_reader_sync_init", "a0_reader_init"], KEEP)
    inits, iters = opt_names(v)
    o = v.offset
    for n in ("a0_reader_sync_zc_init", "a0_reader_zc_init", "a0_reader_sync_init", "a0_reader_init"):
        fn = c.use(v[n])
        threaded = "sync" not in n
        S = "a0_reader_zc_s" if threaded else "a0_reader_sync_zc_s"
        base = ("arg", 0)
        off0 = 0
        if "_zc_" not in n:
            off0 = o("a0_reader_s._reader_zc") if threaded else o("a0_reader_sync_s._reader_sync_zc")
        base = lin_add(base, ("c", off0))
        k = None
        for j in range(len(fn.params)):
            if fn._params()[j][3] in (["struct", "a0_reader_options_s"], ["typedef", "a0_reader_options_t"]):
                k = j
        if k is None:
            raise AnalysisBroken("%s takes no options" % n)
        started = lin_add(base, ("c", o(S + "._started_empty"))) if threaded else None
        g = G(fn)
        opts = {}
        for f, sh, want in (("init", 0, (0, 1, 2)), ("iter", 32, (0, 1))):
            opts[lin_add(base, ("c", o(S + "._opts") + o("a0_reader_options_s." + f)))] = (f, sh, want)

        def remembers(i, f, sh, want):
            x = g.val(i.ops[0])
            rows = list(tabulate([x], lambda l: tuple(w << sh for w in want) if l is mk("arg", k) else (7,)))
            return mk("arg", k) in leaves(x) and all((y & 0xffffffff) == (row[mk("arg", k)] >> sh) for row, (y,) in rows)
        done_at = None if threaded else lin_add(base, ("c", o(S + "._first_read_done")))
        for init in inits:
            m = Model(c, fn, init, "NEXT", "read", n)

            def check(s, i):
                if s.base is None:
                    c.bad("read-place", fn, "%s places no cursor" % n, ex.path())
                    return
                if s.base != E:
                    want = "jump_head" if init == "OLDEST" else "jump_tail"
                    c.expect(bool(s.moves) and s.moves[-1] == want, "read-place", fn,
                             "%s does not place the cursor where the start mode %s says" % (n, init), ex.path())
                for f in ("init", "iter"):
                    c.expect(f in s.out, "read-place", fn, "%s does not remember the %s option it was given" % (n, "start" if f == "init" else "iteration"), ex.path())
                if not threaded:
                    c.expect("done" in s.out, "read-place", fn, "%s starts out as if it had already read" % n, ex.path())
                if threaded:
                    c.expect(dict(s.cells).get(started) is (s.base == E), "read-place", fn,
                             "%s does not remember whether there was anything at the start" % n, ex.path())

            def on_inst(s, i, ctx):
                if i.op == "load":
                    a = ctx.shape(i.ops[0])
                    for y, x in s.cells:
                        if y == a:
                            return Assume(s, *bool_facts(fn, i, x))
                    f = fn.field_of(i)
                    if f == "a0_reader_options_s.init":
                        return Assume(s, (mk_cmp("eq", ("load", i.id, f), ("c", inits[init])), True))
                    return s
                if i.op == "store":
                    a = ctx.shape(i.ops[1])
                    z = ctx.nonzero(i.ops[0])
                    if a in opts:
                        good = remembers(i, *opts[a])
                        return s._replace(out=s.out | {opts[a][0]} if good else s.out - {opts[a][0]})
                    if a == done_at:
                        return s._replace(out=s.out | {"done"} if z is False else s.out - {"done"})
                    if z is not None and (a == started or local(a)):
                        return s._replace(cells=put(s.cells, a, z))
                    return s
                if i.op not in ("call", "invoke"):
                    return s
                if (i.callee or "").startswith(("llvm.memset", "llvm.memcpy", "llvm.memmove")) and "arg', 0)" in str(ctx.shape(i.ops[0])):
                    zero = i.callee.startswith("llvm.memset") and ctx.const(i.ops[1]) == 0
                    return s._replace(out=frozenset({"done"}) if zero else frozenset())
                z = is_zero(fn, i)
                if i.callee == "a0_transport_init":
                    return [Assume(s, (z, True)), Assume(s._replace(failed=True), (z, False))]
                if i.callee == "a0_transport_lock":
                    return [Assume(s._replace(lock="held", cur=x, base=x), (z, True)) for x in ALL] + [Assume(s._replace(failed=True), (z, False))]
                if i.callee == "a0_transport_unlock":
                    return Assume(s._replace(lock="done"), (z, True))
                if s.lock == "held" and i.callee in TAPI:
                    r = m.test(s, i, ctx)
                    return s if r is None else r
                if i.callee == "pthread_create":
                    check(s, i)
                    return [Assume(s._replace(given=True), (z, True)), Assume(s._replace(failed=True), (z, False))]
                return s

            def on_ret(s, i, ctx):
                z = ctx.nonzero(i.ops[0])
                if s.failed:
                    c.expect(z is True, "read-place", fn, "%s reports success although it failed" % n, ex.path())
                    return
                c.expect(z is False, "read-place", fn, "%s reports failure although nothing failed" % n, ex.path())
                if threaded:
                    c.expect(s.given, "read-place", fn, "%s succeeds without having started its thread" % n, ex.path())
                else:
                    check(s, i)
            ex = Explorer(fn, on_inst=on_inst, on_ret=on_ret)
            m.ex = ex

            # the options come in a register: fix the start mode
            e0 = ("arg", k)
            inner = on_inst

            def on_inst2(s, i, ctx):
                r = inner(s, i, ctx)
                if i is fn.blocks[0][0]:
                    conds = [(mk_cmp("eq", e0, ("c", x)), x == inits[init]) for x in inits.values()]
                    return Assume(r, *conds) if not isinstance(r, (list, Assume)) else r
                return r
            ex.on_inst = on_inst2
            run(c, ex, St(None, None, None, (), frozenset(), False, False, False, False, frozenset()))


def thread(c):
    c.rule("thread-first", "the first message a threaded reader delivers is the one the start mode asks for")
    c.rule("thread-next", "a threaded reader then delivers the next, or the newest, message, each once")
    c.rule("thread-ready", "a threaded reader delivers when there is something to deliver")
    c.rule("thread-stop", "a threaded reader ends when, and only when, waiting fails, and delivers nothing after that")
    c.rule("thread-main", "the thread works on its own reader")
    c.rule("read-content", "what is delivered is the message at the cursor, whole")
    tn = thread_fn(c)
    v = c.prog.view([tn], KEEP)
    fn = c.use(v[tn])
    inits, iters = opt_names(v)
    o = v.offset
    S = "a0_reader_zc_s"
    R = ("arg", 0)
    oi = lin_add(R, ("c", o(S + "._opts") + o("a0_reader_options_s.init")))
    ot = lin_add(R, ("c", o(S + "._opts") + o("a0_reader_options_s.iter")))
    os_ = lin_add(R, ("c", o(S + "._started_empty")))
    for init, it, started in [(a, b, d) for a in inits for b in iters for d in (False, True)]:
        m = Model(c, fn, init, it, "thread", "the reader's thread")
        m.possible = lambda s, k: not (started and not s.done and k in (VL, VN))

        def on_inst(s, i, ctx):
            if i.op == "load":
                a = ctx.shape(i.ops[0])
                e = ("load", i.id, fn.field_of(i))
                if a == oi:
                    return Assume(s, (mk_cmp("eq", e, ("c", inits[init])), True))
                if a == ot:
                    return Assume(s, (mk_cmp("eq", e, ("c", iters[it])), True))
                if a == os_:
                    return Assume(s, *bool_facts(fn, i, started))
                for k, x in s.cells:
                    if k == a:
                        return Assume(s, *bool_facts(fn, i, x))
                return s
            if i.op == "store":
                a = ctx.shape(i.ops[1])
                z = ctx.nonzero(i.ops[0])
                if local(a) and z is not None:
                    return s._replace(cells=put(s.cells, a, z))
                return s
            if i.op not in ("call", "invoke"):
                return s
            z = is_zero(fn, i)
            if i.callee == "a0_transport_lock":
                return [Assume(s._replace(lock="held", cur=k, base=k), (z, True)) for k in ALL if m.possible(s, k)] + \
                       [Assume(s._replace(lock="no", failed=True), (z, False))]
            if i.callee == "a0_transport_unlock":
                return Assume(s._replace(lock="done"), (z, True))
            if s.lock == "held" and i.callee in TAPI:
                r = m.test(s, i, ctx)
                if r is not None:
                    return r
                if i.callee == "a0_transport_frame":
                    return Assume(s, (z, s.cur in (VL, VN)))
                return s
            if is_indirect(i) and fptr_role(fn, i, ctx.env) in (ZC, S + "._onpacket"):
                m.deliver(s, i)
                c.expect(s.lock == "held", "thread-stop", i, "the reader's thread delivers a message without the lock", ex.path())
                content(c, fn, i, "the reader's thread", ctx, ctx.shape(i.ops[2]), ctx.shape(i.ops[3]), v)
                # the callback may have let go of the lock in between
                return [s._replace(cur=k, base=k, moves=(), done=True) for k in ALL]
            return s

        def on_ret(s, i, ctx):
            c.expect(s.failed, "thread-stop", fn, "the reader's thread ends although no wait failed (%s)" % m.case(s), ex.path())
        ex = Explorer(fn, on_inst=on_inst, on_ret=on_ret)
        m.ex = ex
        run(c, ex, St(None, None, None, (), frozenset(), False, False, False, False, None))


# ---------------------------------------------------------------- C13
def found_by(fn, frame, o):
    """o is read through the variable the look-up filled in"""
    var = fn.expr(fn.insts[frame].ops[-1])
    if var[0] != "alloca":
        return False
    seen, work = set(), [o]
    while work:
        o = work.pop()
        if o[0] != "i" or o[1] in seen:
            continue
        seen.add(o[1])
        i = fn.insts[o[1]]
        if i.op == "load" and fn.expr(i.ops[0]) == var:
            return True
        work += i.ops
    return False


def zc_calls(c):
    """library code that calls zero-copy callbacks"""
    c.rule("cb-locked", "zero-copy callbacks are called with the transport locked")
    c.rule("cb-fresh", "the message given to a callback was looked up under the present hold of the lock, and the lookup succeeded")
    c.rule("cb-failed", "a read that fails runs no callback, one that succeeds runs it once")
    v0 = c.prog.view(["a0_transport_lock"], [], address_taken=True)
    names = sorted(n for n, st, f, ln, sn in v0.defined.values() if "/src/" in f and (not st or n in v0.address_taken))
    v = c.prog.view(names, KEEP)
    hits = 0
    for n in names:
        fn = v.get(n)
        if fn is None:
            continue
        sites = [i for i in fn.allcalls() if is_indirect(i) and len(i.ops) == 4 and fptr_role(fn, i) == ZC]
        if not sites:
            continue
        c.use(fn)
        hits += 1
        reads = fn.raw_ret != "ptr" if hasattr(fn, "raw_ret") else True
        # lock, frame looked up, position set, calls so far, something failed
        def on_inst(s, i, ctx):
            lock, frame, given, failed = s
            if i.op not in ("call", "invoke"):
                return s
            z = is_zero(fn, i)
            k = i.callee
            if k == "a0_transport_lock":
                return [Assume((True, None, given, failed), (z, True)), Assume((False, None, given, True), (z, False))]
            if k == "a0_transport_unlock":
                return Assume((False, None, given, failed), (z, True))
            if k in ("a0_transport_wait", "a0_transport_timedwait"):
                return [Assume((lock, None, given, failed), (z, True)), Assume((lock, None, given, True), (z, False))]
            if k == "a0_transport_init":
                return [Assume(s, (z, True)), Assume((lock, frame, given, True), (z, False))]
            if k in ("a0_transport_jump", "a0_transport_jump_head", "a0_transport_jump_tail", "a0_transport_step_next", "a0_transport_step_prev"):
                if k == "a0_transport_jump":
                    return [Assume((lock, None, given, failed), (z, True)), Assume((lock, None, given, True), (z, False))]
                return (lock, None, given, failed)
            if k == "a0_transport_frame":
                ok = Assume((lock, i.id, given, failed), (z, True))
                if n == "a0_read_random_access":
                    return [ok, Assume((lock, None, given, True), (z, False))]
                return ok
            if i in sites:
                p = ex.path
                c.expect(lock, "cb-locked", i, "%s calls the callback without the transport lock" % n, p())
                c.expect(frame is not None and (("out', %d," % frame) in str(ctx.shape(i.ops[2])) + str(ctx.expr(i.ops[2])) or found_by(fn, frame, i.ops[2])), "cb-fresh", i,
                         "%s gives the callback a message that was not looked up under the present lock" % n, p())
                c.expect(not failed, "cb-failed", i, "%s calls the callback although reading failed" % n, p())
                return (lock, None, min(given + 1, 2), failed)
            return s

        def on_ret(s, i, ctx):
            lock, frame, given, failed = s
            if not i.ops or fn.name == thread_name:
                return
            z = ctx.nonzero(i.ops[0])
            c.expect(given <= 1, "cb-failed", fn, "%s calls the callback twice" % n, ex.path())
            if failed:
                c.expect(z is True, "cb-failed", fn, "%s reports success although reading failed" % n, ex.path())
            elif z is False:
                c.expect(given == 1, "cb-failed", fn, "%s reports success without having called the callback" % n, ex.path())
        thread_name = thread_fn_name(c)
        ex = Explorer(fn, on_inst=on_inst, on_ret=on_ret)
        run(c, ex, (False, None, 0, False))
    if hits < 4:
        raise AnalysisBroken("only %d functions call zero-copy callbacks" % hits)


def thread_fn_name(c):
    v = c.prog.view(["a0_reader_zc_init"], KEEP)
    for i in v["a0_reader_zc_init"].calls("pthread_create"):
        e = v["a0_reader_zc_init"].expr(i.ops[2])
        if e[0] == "f":
            return e[1]
    raise AnalysisBroken("the reader thread's function is not known")


def copying(c):
    """the callback that makes a threaded reader a copying one"""
    c.rule("copy-under-lock", "the message is copied while the lock is held")
    c.rule("copy-call", "the user's callback runs once, with the copy, after the lock was released, and only if copying worked")
    c.rule("copy-free", "the copy is freed once, after the callback")
    v0 = c.prog.view(["a0_reader_init"], KEEP + ["a0_reader_zc_init"])
    fn = v0["a0_reader_init"]
    zi = fn.calls("a0_reader_zc_init")
    if not zi:
        raise AnalysisBroken("a0_reader_init does not build on a zero-copy reader")
    e = [fn.expr(o) for o in zi[0].ops]
    cb = [x for x in e if x[0] == "f"]
    if not cb:
        raise AnalysisBroken("the copying callback is not known")
    c.expect(e[e.index(cb[0]) - 1] == ("arg", 0), "copy-call", zi[0], "the copying callback is not given its reader")
    c.expect(fn.shape(zi[0].ops[0]) == lin_add(("arg", 0), ("c", v0.offset("a0_reader_s._reader_zc"))), "copy-call", zi[0], "a0_reader_init builds another reader's zero-copy reader")
    n = cb[0][1]
    v = c.prog.view([n], TAPI + ["a0_packet_deserialize"])
    fn = c.use(v[n])
    o = v.offset
    R = ("arg", 0)
    user = (o("a0_reader_s._onpacket"), o("a0_reader_s._onpacket") + 16)
    al = (o("a0_reader_s._alloc"), o("a0_reader_s._alloc") + 24)

    def which(e):
        """field range of the reader an indirect call's target comes from"""
        if e[0] == "ld" and isinstance(e[1], tuple):
            d = lin_add(e[1], R, 1, -1)
            if d[0] == "c":
                return "user" if user[0] <= d[1] < user[1] else "alloc" if al[0] <= d[1] < al[1] else None
        return None
    # locals that hold a copy of the reader's allocator or callback
    copies = {}
    for i in fn.allcalls():
        if (i.callee or "").startswith(("llvm.memcpy", "llvm.memmove")):
            d, s0 = fn.shape(i.ops[0]), fn.shape(i.ops[1])
            r = lin_add(s0, R, 1, -1)
            if d[0] == "alloca" and r[0] == "c":
                copies[d] = r[1]

    def target(ctx, i):
        e = ctx.shape(i.fptr)
        w = which(e)
        if w is None and e[0] == "ld":
            for d, off in copies.items():
                r = lin_add(e[1], d, 1, -1)
                if r[0] == "c":
                    return which(("ld", lin_add(R, ("c", off + r[1])), 8))
        if w is None:
            f = fptr_role(fn, i, ctx.env)
            if f == "a0_alloc_s.dealloc" or f == "a0_alloc_s.alloc":
                return "alloc"
        return w

    pkts = {}
    bufs = {}

    def from_copy(p, did):
        """the pointer is to the deserialised packet, or to a copy of it"""
        d = pkts.get(did)
        if p == d:
            return True
        return any((i.callee or "").startswith("llvm.memcpy") and fn.shape(i.ops[0]) == p and fn.shape(i.ops[1]) == d for i in fn.allcalls())

    def on_inst(s, i, ctx):
        lock, got, called, freed = s
        if i.op not in ("call", "invoke"):
            return s
        z = is_zero(fn, i)
        p = ex.path
        if i.callee == "a0_transport_unlock":
            return (False, got, called, freed)
        if i.callee == "a0_transport_lock":
            c.expect(called or got is False or got is None, "copy-call", i, "%s takes the lock back before the callback has run" % n, p())
            return (True, got, called, freed)
        if i.callee == "a0_packet_deserialize":
            c.expect(lock, "copy-under-lock", i, "%s copies the message without holding the lock" % n, p())
            d, sz = ctx.shape(i.ops[0]), ctx.shape(i.ops[1])
            want = [k for k in range(len(fn.params)) if fn._params()[k][3] in (["struct", "a0_flat_packet_s"], ["typedef", "a0_flat_packet_t"])]
            c.expect(bool(want) and d == ("arg", want[0]), "copy-under-lock", i, "%s does not copy the message it was given" % n)
            pkts[i.id], bufs[i.id] = ctx.shape(i.ops[-2]), ctx.shape(i.ops[-1])
            return [Assume((lock, i.id, called, freed), (z, True)), Assume((lock, False, called, freed), (z, False))]
        if is_indirect(i):
            w = target(ctx, i)
            if w == "user":
                c.expect(not lock, "copy-call", i, "%s runs the user's callback while the transport is locked" % n, p())
                c.expect(isinstance(got, int) and got is not False and any(from_copy(ctx.shape(x), got) for x in i.ops), "copy-call", i,
                         "%s runs the user's callback without a good copy of the message" % n, p())
                c.expect(not called, "copy-call", i, "%s runs the user's callback twice" % n, p())
                c.expect(not freed, "copy-free", i, "%s runs the user's callback with a copy it has freed" % n, p())
                return (lock, got, True, freed)
            if w == "alloc":
                c.expect(got not in (None, False), "copy-free", i, "%s frees a copy that was never made" % n, p())
                c.expect(not freed, "copy-free", i, "%s frees the copy twice" % n, p())
                ok = got not in (None, False) and any(("out', %d," % got) in str(ctx.expr(x)) or ctx.shape(x) == ("ld", bufs[got], 8) for x in i.ops)
                c.expect(ok, "copy-free", i, "%s frees something other than the copy" % n, p())
                return (lock, got, called, True)
        return s

    def on_edge(s, facts, ctx, a, b):
        # a callback or deallocator that was not given need not be called
        lock, got, called, freed = s
        for e, t in facts:
            if e[0] == "cmp" and e[1] == "eq" and ("c", 0) in e[2:]:
                x = e[2] if e[3] == ("c", 0) else e[3]
                sh = fn.eshape(x)
                w = which(sh)
                if w is None and sh[0] == "ld":
                    for d, off in copies.items():
                        r = lin_add(sh[1], d, 1, -1)
                        if r[0] == "c":
                            w = which(("ld", lin_add(R, ("c", off + r[1])), 8))
                if t and w == "user":
                    called = True
                if t and w == "alloc":
                    freed = True
        return (lock, got, called, freed)

    def on_ret(s, i, ctx):
        lock, got, called, freed = s
        p = ex.path()
        if got is None:
            c.bad("copy-call", fn, "%s does not copy the message" % n, p)
        elif got is not False:
            c.expect(called, "copy-call", fn, "%s does not run the user's callback" % n, p)
            c.expect(freed, "copy-free", fn, "%s does not free the copy" % n, p)
        else:
            c.expect(not called, "copy-call", fn, "%s runs the user's callback although copying failed" % n, p)
        c.expect(lock, "copy-under-lock", fn, "%s returns without the lock" % n, p)
    ex = Explorer(fn, on_inst=on_inst, on_ret=on_ret, on_edge=on_edge)
    run(c, ex, (True, None, False, False))


def closing(c):
    c.rule("close-self", "closing from the reader's own thread is refused, and changes nothing")
    c.rule("close-order", "closing asks the thread to stop, lets go of the lock, and waits for the thread to end")
    c.rule("close-started", "the thread's identity is published before it is compared")
    S = "a0_reader_zc_s"
    for n in ("a0_reader_zc_close", "a0_reader_close"):
        v = c.prog.view([n], KEEP + ["pthread_self", "pthread_equal"])
        fn = c.use(v[n])
        o = v.offset
        R = ("arg", 0) if "_zc_" in n else lin_add(("arg", 0), ("c", o("a0_reader_s._reader_zc")))
        at = lambda f: lin_add(R, ("c", o(S + "." + f)))
        ID, TH, EV, TP = at("_thread_id"), at("_thread"), at("_thread_start_event"), at("_transport")
        # own thread?, id of the "who am I" call, of the stored identity, start seen, lock, asked to stop, joined
        Cl = collections.namedtuple("Cl", "own me who started lock stop joined refused")

        def tie(s, ctx):
            if s.me is not None and s.who is not None:
                return Assume(s, (mk_cmp("eq", fn.expr(("i", s.me)), fn.expr(("i", s.who))), s.own))
            return s

        def on_inst(s, i, ctx):
            p = ex.path
            if i.op == "load":
                a = ctx.shape(i.ops[0])
                if a in (ID, TH) and s.who is None and not (a == TH and s.lock is not None):
                    if a == ID:
                        c.expect(s.started, "close-started", i, "%s compares the thread's identity before it is known to be set" % n, p())
                    return tie(s._replace(who=i.id), ctx)
                return s
            if i.op not in ("call", "invoke"):
                return s
            z = is_zero(fn, i)
            if i.callee in ("a0_tid", "pthread_self"):
                return tie(s._replace(me=i.id), ctx)
            if i.callee == "pthread_equal":
                return Assume(s, (z, not s.own))
            if i.callee in ("a0_event_wait", "a0_event_timedwait"):
                return s._replace(started=s.started or ctx.shape(i.ops[0]) == EV and i.callee == "a0_event_wait")
            if i.callee == "a0_transport_lock":
                c.expect(not s.own, "close-self", i, "%s goes on to lock and wait although it runs on the reader's own thread" % n, p())
                c.expect(ctx.shape(i.ops[0]) == TP, "close-order", i, "%s locks another transport" % n)
                return [Assume(s._replace(lock=True), (z, True)), Assume(s._replace(refused=True), (z, False))]
            if i.callee == "a0_transport_unlock":
                c.expect(s.stop, "close-order", i, "%s lets go of the lock before it has asked the thread to stop" % n, p())
                return s._replace(lock=False)
            if i.callee == "a0_transport_shutdown":
                c.expect(s.lock is True and not s.own, "close-order", i, "%s asks the thread to stop without the lock, or from the thread itself" % n, p())
                return s._replace(stop=True)
            if i.callee == "pthread_join":
                c.expect(not s.own, "close-self", i, "%s waits for itself" % n, p())
                c.expect(s.stop and s.lock is False, "close-order", i, "%s waits for the thread before asking it to stop, or while holding the lock it needs" % n, p())
                c.expect(ctx.shape(i.ops[0]) == ("ld", TH, 8), "close-order", i, "%s waits for another thread" % n)
                c.expect(not s.joined, "close-order", i, "%s joins the thread twice" % n, p())
                return s._replace(joined=True)
            return s

        def on_ret(s, i, ctx):
            z = ctx.nonzero(i.ops[0])
            p = ex.path()
            if s.own:
                c.expect(z is True and not s.stop and not s.joined, "close-self", fn, "%s does not refuse to be called from the reader's own thread" % n, p)
            elif s.refused:
                c.expect(z is True, "close-order", fn, "%s succeeds although the transport could not be locked" % n, p)
            else:
                c.expect(s.joined, "close-order", fn, "%s returns before the thread has ended" % n, p)
                c.expect(z is False, "close-order", fn, "%s reports failure although nothing failed" % n, p)
        ex = Explorer(fn, on_inst=on_inst, on_ret=on_ret, track={i.id for i in fn.calls("a0_tid", "pthread_self")} | {i.id for i in fn.order if i.op == "load"})
        run(c, ex, [Cl(w, None, None, False, None, False, False, False) for w in (True, False)])
    # the thread's side
    n = thread_fn_name(c)
    v = c.prog.view([n], KEEP)
    fn = c.use(v[n])
    o = v.offset
    at = lambda f: lin_add(("arg", 0), ("c", o(S + "." + f)))

    def on_inst(s, i, ctx):
        if i.op == "store" and ctx.shape(i.ops[1]) == at("_thread_id"):
            e = ctx.expr(i.ops[0])
            c.expect(e[0] == "call" and e[2] == "a0_tid", "close-started", i, "the reader's thread publishes another identity than its own")
            c.expect(s != "set", "close-started", i, "the reader's thread publishes its identity after saying that it has", ex.path())
            return "known"
        if i.is_call("a0_event_set") and ctx.shape(i.ops[0]) == at("_thread_start_event"):
            c.expect(s == "known", "close-started", i, "the reader's thread says that it has started before publishing its identity", ex.path())
            return "set"
        if i.op in ("call", "invoke") and (i.callee in ("a0_transport_wait", "a0_transport_timedwait") or is_indirect(i)):
            c.expect(s == "set", "close-started", i, "the reader's thread does not say that it has started before it may block", ex.path())
        return s

    def on_ret(s, i, ctx):
        c.expect(s == "set", "close-started", fn, "the reader's thread can end without saying that it started", ex.path())
    ex = Explorer(fn, on_inst=on_inst, on_ret=on_ret)
    run(c, ex, "no")
