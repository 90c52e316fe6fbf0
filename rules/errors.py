"""Failures are reported: C23."""
import os
import re
from rules.common import *
from rules.own import Own, RET, SYS, may_fail, within
from rules.writers import public, all_ids

# calls on whose success the caller's own outcome depends: when one fails for good, so does the caller
MUST = set("""
a0_abspath a0_topic_path a0_topic_open a0_file_open a0_file_remove a0_file_iter_init a0_pathglob_init
a0_cfg_read a0_cfg_read_blocking a0_cfg_read_blocking_timeout a0_cfg_write
a0_deadman_mtx_lock a0_deadman_mtx_timedlock a0_deadman_mtx_trylock a0_deadman_mtx_unlock
a0_deadman_mtx_wait_locked a0_deadman_mtx_wait_unlocked a0_deadman_mtx_timedwait_locked a0_deadman_mtx_timedwait_unlocked
a0_event_timedwait a0_latch_arrive_and_wait a0_mtx_lock a0_mtx_timedlock
a0_packet_serialize a0_packet_deserialize a0_packet_deep_copy
a0_logger_log a0_map_put a0_map_init
a0_reader_init a0_reader_zc_init a0_reader_sync_init a0_reader_sync_zc_init
a0_reader_sync_can_read a0_reader_sync_read a0_reader_sync_read_blocking a0_reader_sync_read_blocking_timeout
a0_reader_sync_zc_can_read a0_reader_sync_zc_read a0_reader_sync_zc_read_blocking a0_reader_sync_zc_read_blocking_timeout
a0_rpc_client_send a0_rpc_client_send_blocking a0_rpc_client_send_blocking_timeout a0_prpc_client_connect
a0_str_to_u32 a0_str_to_u64
a0_transport_init a0_transport_lock a0_transport_jump a0_transport_has_prev a0_transport_nonempty
a0_transport_wait a0_transport_timedwait a0_transport_alloc a0_transport_commit a0_transport_allocator
a0_writer_init a0_writer_push a0_writer_wrap a0_writer_write a0_middleware_chain
epoll_create1 epoll_ctl eventfd fchmod ftruncate inotify_init1 lstat mkstemp mmap opendir pthread_create remove
""".split())
ACQUIRE = {n for n in MUST if "mtx" in n}


class Report(Own):
    """x: (failed calls that must be reported, objects whose construction failed)"""

    def initial(self):
        return ((), frozenset(), frozenset(), (frozenset(), frozenset()))

    def release(self, st, i, h):
        return (tuple(k for k in st[0] if k != h),) + st[1:]

    def unheld(self, st, i, h):
        return st

    def acquire(self, st, i, h, *a, **k):
        return Own.acquire(self, (tuple(t for t in st[0] if t != h),) + st[1:], i, h, *a, **k)

    def failed(self, st, i, code):
        st = Own.failed(self, st, i, code)
        f, dead = st[3]
        if i.callee in MUST:
            self.sites.add(i.id)
            f = f | {i.id}
        m = self.made(i)
        if m is not None:
            dead = dead | {(m[0], i.id)}
        return st[:3] + ((f, dead),)

    def event(self, st, i, ctx):
        if i.op != "call" or (i.callee or "").startswith("llvm."):
            return st
        f, dead = st[3]
        f = frozenset(k for k in f if self.fn.insts[k].callee != i.callee)
        m = self.made(i)
        if m is not None:
            dead = frozenset(d for d in dead if d[0] is not m[0])
        elif dead:
            vs = [self.g.val(o) for o in i.ops]
            for a, k in dead:
                if any(a is x for x in vs):
                    self.c.bad("err-use", i, "%s uses the object %s failed to make at line %s" % (self.name, self.fn.insts[k].callee, self.fn.insts[k].line()[1]), self.e.path())
        st = st[:3] + ((f, dead),)
        if i.callee in ("a0_mtx_lock_successful", "a0_mtx_previous_owner_died") and f:
            # a lock whose owner died was acquired all the same
            z = is_zero(self.fn, i)
            got = st[:3] + ((frozenset(k for k in f if self.fn.insts[k].callee not in ACQUIRE), dead),)
            return [Assume(got, (z, False)), Assume(st, (z, True))]
        return st

    def final(self, st, i, ctx):
        for k in st[3][0]:
            j = self.fn.insts[k]
            if ctx.nonzero(i.ops[0]) is not True:
                self.c.bad("err-report", j, "%s reports success although %s failed" % (self.name, j.callee), self.e.path())


def c_errors(c):
    c.rule("err-report", "a function whose outcome depends on a call that failed does not report success")
    c.rule("err-use", "an object whose construction failed is not used")
    keep = public(c.prog)[1]
    fails = may_fail(c.prog, keep)
    v = c.prog.view(keep, keep, address_taken=True)
    seen = set()
    for n in sorted(v.fns):
        fn = v[n]
        if not any(i.callee in fails or i.callee in SYS or i.callee in RET for i in fn.allcalls()):
            continue
        rets = [i for i in fn.order if i.op == "ret"]
        if not rets or not all(i.ops for i in rets) or v.rettypes.get(n, ())[:1] != ['enum']:
            continue
        x = Report(c, fn, "err-report", keep, fails)
        x.sites = set()
        x.run()
        if x.sites:
            c.use(fn)
            c.ok("err-report", len(x.sites))
            c.ok("err-use", len([k for k in x.sites if x.made(fn.insts[k])]))
            seen |= {fn.insts[k].callee for k in x.sites}
    if len(seen) < 40:
        raise AnalysisBroken("only %d fallible functions were seen to be called" % len(seen))


# --------------------------------------------------------------------------- the C++ interface

def cxx(prog):
    """the C++ sources with everything of the library's own C++ inlined and C functions and the standard library kept"""
    v = prog.view(["a0_transport_lock"], [], cxx=True)
    src = os.path.join(prog.repo, "src") + "/"
    roots = sorted(n for n, st, f, ln, sn in v.defined.values() if f.startswith(src) and f.endswith(".cpp"))
    keep = sorted(n for n, st, f, ln, sn in v.defined.values() if f.endswith(".c") or not f.startswith(prog.repo + "/"))
    if len(roots) < 200:
        raise AnalysisBroken("only %d C++ functions were found" % len(roots))
    return prog.view(roots, keep, cxx=True), roots


# calls whose result is not an error for the C++ caller, or that have nobody left to report to
CXX_EXEMPT = ("_close", "_iterator_next", "_iterator_next_match")
ENOENT = 2


def syscode(fn, i):
    a = fn.expr(i.ops[0])
    return "a0_err_syscode" in str(a)


def cxx_errors(c):
    c.rule("cxx-throw", "when a call into the C interface fails, the C++ function throws or returns the error")
    keep = public(c.prog)[1]
    fails = may_fail(c.prog, keep)
    v, roots = cxx(c.prog)
    codes = {n for n in fails if v.rettypes.get(n, ())[:1] == ["enum"]}
    for n in roots:
        fn = v[n]
        sites = {i.id for i in fn.order if i.op in ("call", "invoke") and i.callee in codes and not i.callee.endswith(CXX_EXEMPT)}
        if not sites:
            continue
        c.use(fn)

        def on_inst(st, i, ctx):
            if i.id in sites:
                z = is_zero(fn, i)
                st = frozenset(k for k in st if fn.insts[k].callee != i.callee)
                return [Assume(st, (z, True)), Assume(st | {i.id}, (z, False))]
            if i.callee in ("a0_mtx_lock_successful", "a0_mtx_previous_owner_died") and st:
                # a lock whose owner died was acquired all the same; an attempt may also just say no
                z, x = is_zero(fn, i), ctx.expr(i.ops[0])
                of = {k for k in st if fn.expr(("i", k)) == x}
                return [Assume(st - of, (z, False)), Assume(st - {k for k in of if "_try" in fn.insts[k].callee}, (z, True))]
            if i.op == "load" and st and any(fn.insts[k].callee == "a0_file_remove" for k in st) and syscode(fn, i):
                # removing what does not exist is no failure
                return Assume(st, (mk_cmp("eq", ctx.expr(("i", i.id)), ("c", ENOENT)), False))
            return st

        def on_ret(st, i, ctx):
            for k in st:
                j = fn.insts[k]
                if not (i.ops and v.rettypes.get(n, ())[:1] == ["enum"] and ctx.nonzero(i.ops[0]) is True):
                    c.bad("cxx-throw", j, "the failure of %s is lost" % j.callee, e.path())
        e = Explorer(fn, on_inst=on_inst, on_ret=on_ret, drop=fn.counters())
        run(c, e, frozenset())
        c.ok("cxx-throw", len(sites))


def cxx_catch(c):
    c.rule("cxx-catch", "an exception the C interface cannot pass on becomes an error")
    v, roots = cxx(c.prog)
    for n in roots:
        fn = v[n]
        if v.rettypes.get(n, ())[:1] != ["enum"] or not any(i.callee == "__cxa_begin_catch" for i in fn.order):
            continue
        c.use(fn)

        def on_inst(st, i, ctx):
            return True if i.callee == "__cxa_begin_catch" else st

        def on_ret(st, i, ctx):
            c.expect(not st or ctx.nonzero(i.ops[0]) is True, "cxx-catch", i, "%s reports success although an exception was thrown" % fn.where(), e.path())
        e = Explorer(fn, on_inst=on_inst, on_ret=on_ret)
        run(c, e, False)


def this(fn):
    for k, p in enumerate(fn.params):
        if p["name"] == "this":
            return ("arg", k)
    return None


def receiver(fn, i):
    """does the call look into the handle of the object the method was called on"""
    n = i.callee or ""
    if not i.ops or not n.startswith(("_ZNKSt19__shared_ptr_access", "_ZNKSt12__shared_ptr", "_ZNKSt10shared_ptr", "_ZSt11get_deleter")):
        return None
    if fn.expr(i.ops[0]) != this(fn):
        return None
    if n.endswith("cvbEv"):
        return "test"
    return "use" if n.startswith("_ZSt11get_deleter") or n.endswith(("deEv", "ptEv", "3getEv")) else None


def used(fn, i):
    if i.op == "store" and this(fn) and fn.expr(i.ops[0]) == this(fn):
        return "use"  # captured by a lambda that does
    return receiver(fn, i) if i.op in ("call", "invoke") else None


METHOD = re.compile(r"_ZNK?2a0\d+")


def cxx_null(c):
    c.rule("cxx-null", "a method looks into its object only after it made sure there is one")
    v, roots = cxx(c.prog)
    for n in roots:
        fn = v[n]
        if not METHOD.match(n):
            continue
        uses = [i for i in fn.order if used(fn, i) == "use"]
        if not uses or any(i.op in ("call", "invoke") and re.match(r"_ZNSt10shared_ptrI.*C2Ev$", i.callee or "") and fn.expr(i.ops[0]) == this(fn) for i in fn.order):
            continue
        c.use(fn)

        def on_inst(st, i, ctx):
            r = used(fn, i)
            if r == "test":
                z = is_zero(fn, i)
                return [Assume("made", (z, False)), Assume("null", (z, True))]
            if r == "use":
                c.expect(st == "made", "cxx-null", i, "uses the object before it was seen to have been constructed", e.path())
            return st
        e = Explorer(fn, on_inst=on_inst, drop=fn.counters())
        run(c, e, "unknown")
