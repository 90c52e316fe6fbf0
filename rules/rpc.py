"""C18 (request/reply) and C19 (progress connections): every entry point explored over the kinds of packet there can be."""
from rules.common import *
from rules.writers import public, string_at, no_clobber, all_ids, LD
from engine.ir import mk_cmp as icmp

MAPF = ("a0_map_pop", "a0_map_get", "a0_map_del", "a0_map_put", "a0_map_has")


class Proto:
    """names of one protocol's public functions and of the structures they work on"""

    def __init__(self, c, p, send, reply, client, server, request):
        self.c, self.p = c, p
        self.v0, self.keep = public(c.prog)
        self.send, self.reply, self.cancel = send, reply, p + "_client_cancel"
        self.client, self.server, self.request = client, server, request
        self.cinit, self.sinit = p + "_client_init", p + "_server_init"
        self.cb = {}
        for n in (self.cinit, self.sinit):
            v = c.prog.view([n], self.keep)
            fn = v[n]
            g = G(fn, clobbers=no_clobber)
            rd = fn.calls("a0_reader_init")
            if not rd:
                raise AnalysisBroken("%s does not start a reader" % n)
            f = {x.a[0] for i in rd for o in i.ops for x in [g.val(o)] if x.op == "f"}
            if len(f) != 1:
                raise AnalysisBroken("the packet callback of %s is not known" % n)
            self.cb[n] = f.pop()
            c.use(fn)

    def fn(self, name):
        v = self.c.prog.view([name], self.keep)
        return self.c.use(v[name])


def alts(x):
    """the values a gated value may be"""
    out, st = [], [x]
    while st:
        y = st.pop()
        if y.op == "sel":
            st += [y.a[1], y.a[2]]
        else:
            out.append(y)
    return out


def is_at(x, addr, size=8):
    """x is what is (or was, when we were called) at addr"""
    al = [y for y in alts(x) if y.op != "undef"]
    return bool(al) and all(y.op == "ld" and y.a[0] is addr or y.op == "clob" and y.a[1] is addr for y in al)


def pkt_is(g, i, ptr, pkt, parts_=(0, 8, 16, 24, 32, 40, 48, 56, 64, 72)):
    """the packet at ptr, just before i, is the one at pkt"""
    if ptr is pkt:
        return all(is_at(g.before(i, ADD(ptr, C(o)), 8), ADD(pkt, C(o))) for o in parts_)
    return all(is_at(g.before(i, ADD(ptr, C(o)), 8), ADD(pkt, C(o))) for o in parts_)


class Sent:
    """what a function writes: headers, identity, payload"""

    def __init__(self, P, name, rule):
        self.P, self.name = P, name
        c = P.c
        self.fn = P.fn(name)
        self.g = G(self.fn, clobbers=no_clobber)
        w = self.fn.calls("a0_writer_write")
        self.w = w
        self.hdrs = {}
        self.ok = False
        if not w:
            c.bad(rule, self.fn, "%s writes nothing" % name)
            return
        o = self.fn.view.offset
        self.hb, self.pay = o("a0_packet_s.headers_block"), o("a0_packet_s.payload")
        i = w[0]
        self.i = i
        g = self.g
        p = g.val(i.ops[1])
        self.ptr = p
        self.next = g.before(i, ADD(p, C(self.hb + 16)), 8)
        h, n = g.before(i, ADD(p, C(self.hb)), 8), g.before(i, ADD(p, C(self.hb + 8)), 8)
        if n.op != "c" or not 0 < n.a[0] < 32:
            c.bad(rule, i, "%s writes a packet without headers of its own" % name)
            return
        for k in range(n.a[0]):
            key = g.before(i, ADD(h, C(16 * k)), 8)
            val = g.before(i, ADD(h, C(16 * k + 8)), 8)
            ks = string_at(self.fn.view, key)
            if ks is None:
                ks = show(key)
            if ks in self.hdrs:
                c.bad(rule, i, "%s writes the header %s twice" % (name, ks))
            self.hdrs[ks] = val
        self.ok = True

    def text(self, key):
        x = self.hdrs.get(key)
        return None if x is None else string_at(self.fn.view, x)

    def keeps(self, rule, pkt, what):
        """the packet written is `pkt` with headers added in front"""
        c, g, i = self.P.c, self.g, self.i
        same = pkt_is(g, i, self.ptr, pkt, (0, 8, 16, 24, 32, self.pay, self.pay + 8))
        c.expect(same, rule, i, "%s does not write the %s it was given" % (self.name, what))
        prev = all(is_at(g.before(i, ADD(self.next, C(k)), 8), ADD(pkt, C(self.hb + k))) for k in (0, 8, 16))
        c.expect(prev, rule, i, "%s loses the headers of the %s" % (self.name, what))


def param_of(fn, struct):
    """argument number of the by-value (or pointer) parameter of a structure type"""
    for k, name, off, ty in params(fn):
        if off == 0 and struct in str(ty):
            return k
    return None


def params(fn):
    """[(argument number, name, offset in the parameter, type)]"""
    return [(k, p[1], p[2], p[3]) for k, p in enumerate(fn._params())]


def wire(P, rule):
    """texts on the wire: (type key, id key, request, answer texts, cancel) read off what is written"""
    c = P.c
    s, r, x = Sent(P, P.send, rule), Sent(P, P.reply, rule), Sent(P, P.cancel, rule)
    if not (s.ok and r.ok and x.ok):
        return None
    tk = [k for k in s.hdrs if s.text(k) is not None and k in r.hdrs and k in x.hdrs]
    if not c.expect(len(tk) == 1, rule, s.fn, "%s, %s and %s do not say what they send under a common header" % (P.send, P.reply, P.cancel)):
        return None
    tk = tk[0]
    # identity of the request: the id of the packet that came with it
    ra = mk("arg", param_of(r.fn, P.request))
    rid = ADD(ra, C(r.fn.view.offset(P.request + ".pkt")))
    ua = mk("arg", 1)
    ik = [k for k in r.hdrs if k in x.hdrs and k != tk and not k.startswith(("[", "clob"))]
    if not c.expect(len(ik) == 1, rule, r.fn, "%s and %s do not carry an id under a common header" % (P.reply, P.cancel)):
        return None
    ik = ik[0]
    c.expect(r.hdrs[ik] is rid, rule, r.i, "%s does not carry the id of what it answers" % P.reply)
    c.expect(x.hdrs[ik] is ua, rule, x.i, "%s does not carry the id of what it cancels" % P.cancel)
    return s, r, x, tk, ik


def sends(P, rule_reg, rule_wire, w):
    """registering, sending, replying and cancelling"""
    c = P.c
    s, r, x, tk, ik = w
    # reply
    rp = mk("arg", [k for k, n, off, ty in params(r.fn) if off == 0 and "a0_packet_s" in str(ty)][-1])
    r.keeps(rule_wire, rp, "reply")
    sv = LD(mk("arg", param_of(r.fn, P.request)))
    d = ADD(r.g.val(r.i.ops[0]), sv, 1, -1)
    c.expect(d.op == "c", rule_wire, r.i, "%s does not answer through the server the request came from" % P.reply)
    c.implies(rule_wire, r.i, ONE, EQ(r.g.ret(), r.g.val(("i", r.i.id)), 32), lambda v: (0, 1, 2), "%s does not report whether it was written" % P.reply)
    c.expect(r.g.guard(r.i) is ONE and len(r.w) == 1, rule_wire, r.i, "%s does not always write exactly one packet" % P.reply)
    # cancel
    g = x.g
    pd, ps = g.before(x.i, ADD(x.ptr, C(x.pay)), 8), g.before(x.i, ADD(x.ptr, C(x.pay + 8)), 8)
    c.expect(pd is mk("arg", 1) and ps.op == "c" and ps.a[0] == 37, rule_wire, x.i, "%s does not name what it cancels in the payload" % P.cancel)
    c.expect(g.guard(x.i) is ONE and len(x.w) == 1, rule_wire, x.i, "%s does not always write exactly one packet" % P.cancel)
    fresh = [y for y in (g.before(x.i, x.ptr, 8),) if y.op == "out" and x.fn.insts[y.a[0]].callee in ("a0_packet_init", "a0_uuidv4")]
    c.expect(bool(fresh), rule_wire, x.i, "%s writes a packet without an id of its own" % P.cancel)
    registry(P, x.fn, g, rule_reg, "cancel")
    # send
    pk = mk("arg", [k for k, n, off, ty in params(s.fn) if off == 0 and "a0_packet_s" in str(ty)][0])
    s.keeps(rule_wire, pk, "request")
    registry(P, s.fn, s.g, rule_reg, "send")


def registry(P, fn, g, rule, kind):
    """the table of outstanding requests around a write"""
    c = P.c
    name = fn.name
    cbv = None
    if kind == "send":
        pk = mk("arg", [k for k, n, off, ty in params(fn) if off == 0 and "a0_packet_s" in str(ty)][0])
        last = [k for k, n, off, ty in params(fn) if "callback" in str(ty)]
        key = pk
    else:
        key = mk("arg", 1)
    client = mk("arg", 0)

    def on_inst(st, i, ctx):
        lock, reg, wrote = st
        z = is_zero(fn, i) if i.op == "call" else None
        if i.is_call("pthread_mutex_lock"):
            c.expect(not lock, rule, i, "%s takes the lock twice" % name, e.path())
            return (g.val(i.ops[0]), reg, wrote)
        if i.is_call("pthread_mutex_unlock"):
            c.expect(lock is g.val(i.ops[0]), rule, i, "%s releases a lock it does not hold" % name, e.path())
            return (False, reg, wrote)
        if i.callee in MAPF:
            c.expect(bool(lock), rule, i, "%s uses the table of outstanding requests without its lock" % name, e.path())
            c.expect(g.val(i.ops[1]) is key, rule, i, "%s uses another id than that of the request" % name)
            if i.callee == "a0_map_put":
                v = g.val(i.ops[2])
                if kind == "send":
                    if len(last) >= 2:
                        got = [g.before(i, ADD(v, C(8 * k)), 8) for k in (0, 1)]
                        ok = got == [mk("arg", k) for k in last[:2]]
                    else:
                        ok = all(is_at(g.before(i, ADD(v, C(8 * k)), 8), ADD(mk("arg", last[0]), C(8 * k))) for k in (0, 1))
                    c.expect(ok, rule, i, "%s registers another callback than the one given" % name)
                return [Assume((lock, True, wrote), (z, True)), Assume((lock, reg, wrote), (z, False))]
            if i.callee in ("a0_map_del", "a0_map_pop"):
                return (lock, "gone", wrote)
            return st
        if i.is_call("a0_writer_write"):
            d = ADD(g.val(i.ops[0]), client, 1, -1)
            c.expect(d.op == "c", rule, i, "%s writes to another client's topic" % name)
            if kind == "send":
                c.expect(reg is True, rule, i, "%s sends the request before it is registered" % name, e.path())
            else:
                c.expect(reg == "gone", rule, i, "%s announces the cancellation while a reply may still be delivered" % name, e.path())
            c.expect(wrote is None, rule, i, "%s writes twice" % name, e.path())
            return [Assume((lock, reg, True), (z, True)), Assume((lock, reg, False), (z, False))]
        return st

    def on_ret(st, i, ctx):
        lock, reg, wrote = st
        nz = ctx.nonzero(i.ops[0])
        c.expect(not lock, rule, i, "%s returns with the table locked" % name, e.path())
        if wrote is True:
            c.expect(nz is False, rule, i, "%s fails although the packet was written" % name, e.path())
            if kind == "send":
                c.expect(reg is True, rule, i, "%s takes back the registration of a request that was sent" % name, e.path())
        else:
            c.expect(nz is True, rule, i, "%s succeeds although nothing was written" % name, e.path())
            if kind == "send":
                c.expect(reg is not True, rule, i, "%s leaves a request registered that was never sent" % name, e.path())
    e = Explorer(fn, on_inst=on_inst, on_ret=on_ret, track=all_ids(fn))
    run(c, e, (False, None, None))


class Packets:
    """calls that look at a packet, decided for one kind of packet (its type text, whether it has the id)"""

    def __init__(self, P, fn, g, tk, ik, rule):
        self.P, self.fn, self.g, self.tk, self.ik, self.rule = P, fn, g, tk, ik, rule
        self.keyof = {}
        for i in fn.allcalls():
            if (i.callee or "").endswith("header_iterator_next_match"):
                self.keyof[i.id] = string_at(fn.view, g.val(i.ops[1]))

    def header(self, x):
        """text of the header key whose value x is, or None"""
        ks = {self.keyof.get(y.a[0]) for y in alts(x) if y.op == "out" and y.a[2] is C(8)}
        return ks.pop() if len(ks) == 1 else None

    def decide(self, i, T, I, fresh):
        """(fact about the call's result or None, iterators not yet moved)"""
        g, fn, c = self.g, self.fn, self.P.c
        n = i.callee or ""
        if n.endswith("header_iterator_init"):
            return None, fresh | {g.val(i.ops[0])}
        if i.id in self.keyof:
            it = g.val(i.ops[0])
            c.expect(it in fresh, self.rule, i, "%s looks for a header from where an earlier search stopped" % fn.name)
            k = self.keyof[i.id]
            here = T is not None if k == self.tk else I if k == self.ik else None
            f = None if here is None else (is_zero(fn, i), bool(here))
            return f, fresh - {it}
        if n in ("strcmp", "strcasecmp"):
            a, b = g.val(i.ops[0]), g.val(i.ops[1])
            for x, y in ((a, b), (b, a)):
                s = string_at(fn.view, y)
                if s is not None and self.header(x) == self.tk:
                    return (is_zero(fn, i), T == s), fresh
        return None, fresh


def kinds(words):
    return [None] + sorted(words) + ["?"]


def nonnull(g, fn, fields):
    """loads of the function pointers named by `fields` (a predicate on values)"""
    return {i.id for i in fn.order if i.op == "load" and fields(g.val(("i", i.id)))}


def client_packets(P, w, answers, rule_call, rule_lock):
    """what the client does with every kind of packet. answers: text -> is it the last one"""
    c = P.c
    s, r, x, tk, ik = w
    name = P.cb[P.cinit]
    fn = P.fn(name)
    g = G(fn, clobbers=no_clobber)
    Q = Packets(P, fn, g, tk, ik, rule_call)
    words = {s.text(tk), x.text(tk)} | set(answers)
    pkt = mk("arg", 1)
    maps = {i.id: i for i in fn.allcalls() if i.callee in MAPF}
    if not maps:
        c.bad(rule_call, fn, "%s does not look up the request" % name)
        return

    def entry(y):
        """(map call, offset in the entry) a value was read from"""
        if y.op == "out" and y.a[0] in maps and y.a[2].op == "c":
            return maps[y.a[0]], y.a[2].a[0]
        if y.op in ("clob", "ld"):
            a = y.a[1] if y.op == "clob" else y.a[0]
            k, t = parts(a)
            if len(t) == 1:
                b = next(iter(t))
                if b.op == "out" and b.a[0] in maps and t[b] == 1:
                    return maps[b.a[0]], k
        return None

    def entries(v):
        es = [entry(y) for y in alts(v) if y.op != "undef"]
        return None if not es or None in es else es
    cbs = [i for i in fn.allcalls() if is_indirect(i) and entries(g.val(i.fptr))]
    if not cbs:
        c.bad(rule_call, fn, "%s does not invoke the callback of the request" % name)
        return
    tests = {i.id for i in fn.order if i.op == "load" and any(g.val(("i", i.id)) is y for cb in cbs for y in alts(g.val(cb.fptr)) + [g.val(cb.fptr)])}
    # reads of a table entry in place
    inplace = set()
    for i in fn.order:
        src = i.ops[0] if i.op == "load" else i.ops[1] if (i.callee or "").startswith("llvm.memcpy") else None
        if src is not None:
            for y in alts(g.val(src)):
                k, t = parts(y)
                if any(b.op == "out" and b.a[0] in maps and maps[b.a[0]].callee == "a0_map_get" for b in t):
                    inplace.add(i.id)
    for T in kinds(words):
        for I in (False, True):
            for R in (False, True):
                for null in (False, True):
                    if null and not tests:
                        continue
                    scenario(P, fn, g, Q, T, I, R, null, answers, rule_call, rule_lock, maps, cbs, tests, inplace, entries, pkt, ik, name)


def scenario(P, fn, g, Q, T, I, R, null, answers, rule_call, rule_lock, maps, cbs, tests, inplace, entries, pkt, ik, name):
    c = P.c
    desc = "a packet of type %s %s id, %sregistered" % (T or "(none)", "with" if I else "without", "" if R else "not ")

    def on_inst(st, i, ctx):
        lock, fresh, present, got, called = st
        if i.op == "load" and i.id in tests:
            st2 = st
            if i.id in inplace:
                c.expect(bool(lock), rule_lock, i, "%s reads a registered callback without the lock" % name, e.path())
            return Assume(st2, (icmp("eq", ctx.expr(("i", i.id)), ("c", 0)), null))
        if i.id in inplace:
            c.expect(bool(lock), rule_lock, i, "%s reads a registered callback without the lock" % name, e.path())
            return st
        if i.op != "call":
            return st
        if i.is_call("pthread_mutex_lock"):
            c.expect(not lock, rule_lock, i, "%s takes the lock twice" % name, e.path())
            return (g.val(i.ops[0]), fresh, present, got, called)
        if i.is_call("pthread_mutex_unlock"):
            c.expect(bool(lock), rule_lock, i, "%s releases a lock it does not hold" % name, e.path())
            return (False, fresh, present, got, called)
        if i.id in maps:
            c.expect(bool(lock), rule_lock, i, "%s uses the table of outstanding requests without its lock" % name, e.path())
            c.expect(I and Q.header(g.val(i.ops[1])) == ik, rule_call, i, "%s looks up something other than the id in the packet" % name, e.path())
            ok = bool(present)
            if i.callee == "a0_map_has":
                return st
            nxt = present
            ng = got
            if i.callee in ("a0_map_pop", "a0_map_del"):
                nxt = False
            if i.callee in ("a0_map_pop", "a0_map_get") and ok:
                ng = got | {i.id}
            return Assume((lock, fresh, nxt, ng, called), (is_zero(fn, i), ok))
        if i in cbs:
            es = entries(g.val(i.fptr))
            c.expect(not lock, rule_lock, i, "%s invokes the callback while holding the lock" % name, e.path())
            c.expect(bool(got) and all(k >= 0 for m, k in es), rule_call, i, "%s invokes a callback nobody registered (%s)" % (name, desc), e.path())
            c.expect(not called, rule_call, i, "%s invokes the callback twice" % name, e.path())
            u = entries(g.val(i.ops[0]))
            c.expect(u is not None and {(m.id, k) for m, k in u} == {(m.id, k - 8) for m, k in es}, rule_call, i, "%s passes the callback another request's data" % name)
            c.expect(pkt_is(g, i, g.val(i.ops[1]), pkt), rule_call, i, "%s does not pass on the packet it was given" % name)
            if len(i.ops) > 2 and T in answers:
                done = answers[T]
                nz = ctx.nonzero(i.ops[2])
                c.expect(nz is done, rule_call, i, "%s says %s for a packet of type %s" % (name, "that more will come" if done else "that it was the last one", T), e.path())
            if T in answers and answers[T]:
                c.expect(not present, rule_call, i, "%s leaves the request registered while its last callback runs" % name, e.path())
            return (lock, fresh, present, got, True)
        if is_indirect(i):
            c.bad(rule_call, i, "%s invokes something other than the callback of the request" % name)
            return st
        f, nf = Q.decide(i, T, I, fresh)
        st2 = (lock, nf, present, got, called)
        return st2 if f is None else Assume(st2, f)

    def on_ret(st, i, ctx):
        lock, fresh, present, got, called = st
        want = T in answers and I and R
        c.expect(not lock, rule_lock, i, "%s returns with the table locked" % name, e.path())
        if want and not null:
            c.expect(called, rule_call, i, "%s does not deliver (%s)" % (name, desc), e.path())
        if not want:
            c.expect(not called, rule_call, i, "%s invokes a callback for %s" % (name, desc), e.path())
        if want and answers[T]:
            c.expect(not present, rule_call, i, "%s leaves an answered request registered" % name, e.path())
        if R and not (want and answers[T]):
            c.expect(bool(present), rule_call, i, "%s drops a request that is still waiting (%s)" % (name, desc), e.path())
    e = Explorer(fn, on_inst=on_inst, on_ret=on_ret, track=all_ids(fn))
    run(c, e, (False, frozenset(), R, frozenset(), False))


def server_packets(P, w, onreq, oncancel, rule):
    c = P.c
    s, r, x, tk, ik = w
    name = P.cb[P.sinit]
    fn = P.fn(name)
    g = G(fn, clobbers=no_clobber)
    Q = Packets(P, fn, g, tk, ik, rule)
    o = fn.view.offset
    srv, pkt = mk("arg", 0), mk("arg", 1)
    slot = {}
    for i in fn.allcalls():
        if is_indirect(i):
            for what in (onreq, oncancel):
                b = ADD(srv, C(o("%s.%s" % (P.server, what))))
                if is_at(g.val(i.fptr), ADD(b, C(8))):
                    slot[i.id] = (what, b)
            if i.id not in slot:
                c.bad(rule, i, "%s invokes something other than the server's callbacks" % name)
    loads = {}
    for i in fn.order:
        if i.op == "load":
            for what in (onreq, oncancel):
                if is_at(g.val(("i", i.id)), ADD(srv, C(o("%s.%s" % (P.server, what)) + 8))):
                    loads[i.id] = what
    req, can = s.text(tk), x.text(tk)
    words = {req, can} | {t for t in ([r.text(tk)] if r.text(tk) else [])}

    def id_ok(i, y):
        """the id passed on: the payload's, a copy of it, or the id header's"""
        if is_at(y, ADD(pkt, C(o("a0_packet_s.payload")))) or Q.header(y) == ik:
            return True
        for k in fn.allcalls():
            if (k.callee or "").startswith(("llvm.memcpy", "llvm.memmove")) and g.val(k.ops[0]) is y and fn.dominates(k, i):
                z = g.val(k.ops[1])
                n = g.val(k.ops[2])
                if (is_at(z, ADD(pkt, C(o("a0_packet_s.payload")))) or Q.header(z) == ik) and n.op == "c" and n.a[0] == 37:
                    return True
        return False
    for T in kinds(words):
        for I in (False, True):
            for null in (False, True):
                def on_inst(st, i, ctx):
                    fresh, called = st
                    if i.op == "load" and i.id in loads:
                        z = null if loads[i.id] == oncancel else False
                        return Assume(st, (icmp("eq", ctx.expr(("i", i.id)), ("c", 0)), z))
                    if i.op != "call":
                        return st
                    if i.id in slot:
                        what, b = slot[i.id]
                        c.expect(is_at(g.val(i.ops[0]), b), rule, i, "%s passes %s another callback's data" % (name, what))
                        if what == onreq:
                            p = g.val(i.ops[1])
                            po = o(P.request + ".pkt")
                            same = all(is_at(g.before(i, ADD(p, C(po + k)), 8), ADD(pkt, C(k))) for k in range(0, 80, 8))
                            c.expect(same and g.before(i, p, 8) is srv, rule, i, "%s does not hand on the packet together with the server it came to" % name)
                        else:
                            c.expect(not null, rule, i, "%s invokes a callback that was not given" % name, e.path())
                            c.expect(id_ok(i, g.val(i.ops[1])), rule, i, "%s does not say what was cancelled" % name)
                        return (fresh, called + (what,))
                    f, nf = Q.decide(i, T, I, fresh)
                    return (nf, called) if f is None else Assume((nf, called), f)

                def on_ret(st, i, ctx):
                    called = st[1]
                    want = (onreq,) if T == req else (oncancel,) if T == can and not null else ()
                    if T == can and not I and called == ():
                        return
                    c.expect(called == want, rule, i, "%s invokes %s for a packet of type %s%s" % (name, " and ".join(called) or "nothing", T or "(none)", " without a cancellation callback" if null else ""), e.path())
                e = Explorer(fn, on_inst=on_inst, on_ret=on_ret, track=all_ids(fn))
                run(c, e, (frozenset(), ()))


def stores(fn, g, addr):
    """instructions that set the word at addr"""
    for i in fn.order:
        if i.op == "store" and g.val(i.ops[1]) is addr:
            yield i
        if (i.callee or "").startswith(("llvm.memcpy", "llvm.memmove")):
            d, n = ADD(addr, g.val(i.ops[0]), 1, -1), g.val(i.ops[2])
            if d.op == "c" and n.op == "c" and 0 <= d.a[0] and d.a[0] + 8 <= n.a[0]:
                yield i


def ready(P, rule):
    """what the packet callback uses is there before the first packet can come"""
    c = P.c
    for init in (P.cinit, P.sinit):
        fn = P.fn(init)
        g = G(fn, clobbers=no_clobber)
        cb = P.fn(P.cb[init])
        cg = G(cb, clobbers=no_clobber)
        a0 = mk("arg", 0)
        rd = fn.calls("a0_reader_init")
        need = {}
        for i in cb.allcalls():
            if i.callee in MAPF:
                need[cg.val(i.ops[0])] = ("a0_map_init", "its table")
            if i.is_call("pthread_mutex_lock"):
                need[cg.val(i.ops[0])] = ("pthread_mutex_init", "its lock")
        if init == P.sinit:
            r = P.fn(P.reply)
            rg = G(r, clobbers=no_clobber)
            for i in r.calls("a0_writer_write"):
                d = ADD(rg.val(i.ops[0]), LD(mk("arg", param_of(r, P.request))), 1, -1)
                if d.op == "c":
                    need[ADD(a0, d)] = ("a0_writer_init", "the writer replies go to")
        for i in rd:
            for addr, (f, what) in need.items():
                ok = any(g.val(k.ops[0]) is addr and fn.dominates(k, i) for k in fn.calls(f))
                c.expect(ok, rule, i, "%s listens before %s is ready" % (init, what))
            j = [k for k, x in enumerate(i.ops) if g.val(x).op == "f"][0]
            c.expect(g.val(i.ops[j - 1]) is a0, rule, i, "%s listens with another object's data" % init)
            used = {(p.a[0] if p.op == "ld" else p.a[1]) for q in cb.allcalls() if is_indirect(q) for v in (cg.val(q.fptr), cg.val(q.ops[0])) for p in alts(v) if p.op in ("ld", "clob")}
            for addr in used:
                k, t = parts(addr)
                if list(t) == [a0] and t[a0] == 1:
                    c.expect(any(fn.dominates(q, i) for q in stores(fn, g, addr)), rule, i, "%s listens before its callbacks are set" % init)


def blocking(P, w, answers, rule):
    c = P.c
    s, r, x, tk, ik = w
    name = P.p + "_client_send_blocking_timeout"
    fn = P.fn(name)
    g = G(fn, clobbers=no_clobber)
    Q = Packets(P, fn, g, tk, ik, rule)
    can = x.text(tk)
    words = {s.text(tk), can} | set(answers)
    out = mk("arg", [k for k, n, off, ty in params(fn) if off == 0 and ty[0] == "ptr" and "a0_packet_s" in str(ty)][-1])
    pk = mk("arg", [k for k, n, off, ty in params(fn) if off == 0 and ty[0] != "ptr" and "a0_packet_s" in str(ty)][0])
    limit = mk("arg", [k for k, n, off, ty in params(fn) if "a0_time_mono" in str(ty)][0])
    combos = [(T, I, m) for T in kinds(words) for I in (False, True) for m in ((False, True) if I else (False,))]

    def on_inst(st, i, ctx):
        rd, sent, last, fresh, lock, reg = st
        if i.op != "call":
            return st
        z = is_zero(fn, i)
        p = e.path
        if i.is_call("a0_reader_sync_init"):
            c.expect(rd is None, rule, i, "%s opens two readers" % name, p())
            o = g.val(i.ops[-1])
            c.expect(o.op == "c" and o.a[0] >> 32 == 0, rule, i, "%s skips packets while it waits for its reply" % name)
            return [Assume(("open", sent, last, fresh, lock, reg), (z, True)), Assume(("failed", sent, last, fresh, lock, reg), (z, False))]
        if i.is_call("a0_reader_sync_close"):
            c.expect(rd == "open", rule, i, "%s closes a reader that is not open" % name, p())
            return ("closed", sent, last, fresh, lock, reg)
        if i.is_call(P.send):
            c.expect(rd == "open", rule, i, "%s sends before it listens, so the reply can be missed" % name, p())
            c.expect(sent is None, rule, i, "%s sends the request twice" % name, p())
            c.expect(pkt_is(g, i, g.val(i.ops[1]), pk), rule, i, "%s sends another packet" % name)
            return [Assume((rd, True, last, fresh, lock, True), (z, True)), Assume((rd, False, last, fresh, lock, reg), (z, False))]
        if (i.callee or "").startswith("a0_reader_sync_read"):
            c.expect(rd == "open" and sent is True, rule, i, "%s waits for a reply to a request it has not sent" % name, p())
            c.expect("timeout" not in i.callee or g.val(i.ops[1]) is limit, rule, i, "%s does not wait as long as it was told" % name)
            c.expect("timeout" in i.callee or ctx.truth(icmp("eq", fn.expr(("a", limit.a[0])), ("c", 0))) is True, rule, i, "%s ignores its timeout" % name)
            c.expect(g.val(i.ops[-1]) is out, rule, i, "%s does not put the reply where the caller wants it" % name)
            if last not in (None, "error"):
                T, I, m = last
                c.expect(not (I and m and (T in answers or T == can)), rule, i, "%s goes on after the answer to its request came" % name, p())
            c.expect(last != "error", rule, i, "%s goes on after reading failed" % name, p())
            return [Assume((rd, sent, k, frozenset(), lock, reg), (z, True)) for k in combos] + [Assume((rd, sent, "error", frozenset(), lock, reg), (z, False))]
        if i.is_call("pthread_mutex_lock"):
            return (rd, sent, last, fresh, True, reg)
        if i.is_call("pthread_mutex_unlock"):
            return (rd, sent, last, fresh, False, reg)
        if i.callee in ("a0_map_del", "a0_map_pop"):
            c.expect(lock, rule, i, "%s uses the table of outstanding requests without its lock" % name, p())
            c.expect(g.val(i.ops[1]) is pk, rule, i, "%s forgets another request" % name)
            return (rd, sent, last, fresh, lock, False)
        if i.is_call(P.cancel):
            return (rd, sent, last, fresh, lock, False)
        if last in (None, "error"):
            return st
        T, I, m = last
        if i.callee in ("memcmp", "strcmp", "strncmp", "bcmp"):
            a, b = g.val(i.ops[0]), g.val(i.ops[1])
            for u, v in ((a, b), (b, a)):
                hv = Q.header(v) or ({Q.keyof.get(y.a[0]) for y in alts(v) if y.op == "out" and y.a[2] is C(8)} or {None}).pop()
                if u is pk and hv == ik:
                    n = g.val(i.ops[2]) if len(i.ops) > 2 else None
                    if n is not None and not (n.op == "c" and n.a[0] in (36, 37)):
                        c.bad(rule, i, "%s compares only part of the id" % name)
                    return Assume(st, (z, m))
                sx = string_at(fn.view, v)
                if sx is not None and tk in {Q.keyof.get(y.a[0]) for y in alts(u) if y.op == "out"}:
                    return Assume(st, (z, T == sx))
        f, nf = Q.decide(i, T, I, fresh)
        st2 = (rd, sent, last, nf, lock, reg)
        return st2 if f is None else Assume(st2, f)

    def on_ret(st, i, ctx):
        rd, sent, last, fresh, lock, reg = st
        nz = ctx.nonzero(i.ops[0])
        p = e.path()
        c.expect(not lock, rule, i, "%s returns with the table locked" % name, p)
        c.expect(rd in ("closed", "failed"), rule, i, "%s returns without closing its reader" % name, p)
        if rd == "failed" or sent is not True or last in (None, "error"):
            c.expect(nz is True, rule, i, "%s succeeds although no reply was read" % name, p)
            c.expect(not reg, rule, i, "%s leaves a request registered nobody waits for" % name, p)
            return
        T, I, m = last
        if I and m and T == can:
            c.expect(nz is True, rule, i, "%s reports a cancellation as a reply" % name, p)
        elif I and m and T in answers:
            c.expect(nz is False, rule, i, "%s reports an error although the reply came" % name, p)
        elif not (I and m):
            c.bad(rule, i, "%s returns a packet that does not answer its request" % name, p)
    e = Explorer(fn, on_inst=on_inst, on_ret=on_ret, track=all_ids(fn))
    run(c, e, (None, None, None, frozenset(), False, None))


RULES = {
    "wire": "what is sent keeps the packet given and says what it is and which request it belongs to",
    "register": "a request is registered, under the lock, before it is sent, and is forgotten when cancelled or when sending failed",
    "deliver": "every kind of packet invokes exactly the callbacks it should, with its own data",
    "lock": "the table is used under its lock and callbacks run without it",
    "serve": "the server hands every request and every cancellation to its callback, and nothing else",
    "ready": "nothing is received before what the callback uses is ready",
}


def rules(c, p, more=()):
    for k, t in RULES.items():
        c.rule(p + "-" + k, t)


def c18(c):
    rules(c, "rpc")
    c.rule("rpc-block", "a blocking request listens before it sends, returns its own answer or an error, and leaves nothing behind")
    P = Proto(c, "a0_rpc", "a0_rpc_client_send", "a0_rpc_server_reply", "a0_rpc_client_s", "a0_rpc_server_s", "a0_rpc_request_s")
    w = wire(P, "rpc-wire")
    if w is None:
        return
    s, r, x, tk, ik = w
    resp = r.text(tk)
    c.expect(resp is not None and len({s.text(tk), resp, x.text(tk)}) == 3, "rpc-wire", r.fn, "requests, replies and cancellations cannot be told apart")
    sends(P, "rpc-register", "rpc-wire", w)
    client_packets(P, w, {resp: True}, "rpc-deliver", "rpc-lock")
    server_packets(P, w, "_onrequest", "_oncancel", "rpc-serve")
    ready(P, "rpc-ready")
    blocking(P, w, {resp: True}, "rpc-block")


def c19(c):
    rules(c, "prpc")
    P = Proto(c, "a0_prpc", "a0_prpc_client_connect", "a0_prpc_server_send", "a0_prpc_client_s", "a0_prpc_server_s", "a0_prpc_connection_s")
    w = wire(P, "prpc-wire")
    if w is None:
        return
    s, r, x, tk, ik = w
    # the mark says what the caller said
    x2 = r.hdrs[tk]
    done = mk("arg", [k for k, n, off, ty in params(r.fn)][-1])
    texts = {}
    for d in (0, 1):
        y = subst(x2, {done: C(d)})
        ys = [z for z in alts(y)]
        texts[d] = string_at(r.fn.view, ys[0]) if len(ys) == 1 else None
    ok = texts[0] is not None and texts[1] is not None and len({texts[0], texts[1], s.text(tk), x.text(tk)}) == 4
    if not c.expect(ok, "prpc-wire", r.i, "%s does not mark progress and completion differently (%s)" % (P.reply, show(x2))):
        return
    sends(P, "prpc-register", "prpc-wire", w)
    client_packets(P, w, {texts[0]: False, texts[1]: True}, "prpc-deliver", "prpc-lock")
    server_packets(P, w, "_onconnect", "_oncancel", "prpc-serve")
    ready(P, "prpc-ready")
