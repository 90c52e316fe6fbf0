"""C17: packets survive serialisation, copying and flat access. Layouts are compared as affine expressions, loops by induction."""
from rules.common import *
from engine.seg import Segments, add, sub, ld, atoms, rewrite
from engine.ir import lin_parts, mk_lin, mk_not

KEEP = ["a0_alloc", "a0_packet_stats", "a0_uuidv4", "a0_packet_header_iterator_next"]
NEXT = ["a0_flat_packet_header", "a0_flat_packet_header_iterator_next"]
N, K = ("N",), ("K",)


def c_(n):
    return ("c", n)


def times(k, e):
    c, t = lin_parts(e)
    return mk_lin(c * k, {a: x * k for a, x in t.items()})


def sl(x):
    return add(("strlen", x), c_(1))


def sh(e):
    if not isinstance(e, tuple):
        return str(e)
    if e[0] == "lin":
        return "+".join(([str(e[1])] if e[1] else []) + [("%d*" % x if x != 1 else "") + sh(k) for k, x in e[2]])
    if e[0] == "c":
        return str(e[1])
    if e[0] == "ld":
        return "[" + sh(e[1]) + "]"
    if e[0] in ("phi", "arg", "alloca", "N", "K"):
        return "".join(map(str, e))
    return e[0] + "(" + ",".join(sh(x) for x in e[1:]) + ")"


class Fun:
    def __init__(self, c, name, keep=KEEP):
        self.c, self.name = c, name
        self.fn = c.use(c.prog.view([name], [k for k in keep if k != name])[name])
        self.S = Segments(self.fn)
        self.off = self.fn.view.offset
        c.states += self.S.count

    def ok_rets(self):
        return [g for g in self.S.segs if g.dst is None and g.ret == c_(0)]

    def call(self, name):
        return [(g, i, a) for g in self.S.segs for i, a in g.calls if i.callee == name]

    def must(self, has):
        """every way to a successful return passes a stretch that satisfies `has`"""
        reach, work = {0}, [0]
        while work:
            b = work.pop()
            for g in self.S.segs:
                if g.src == b and not has(g):
                    if g.dst is None:
                        if g.ret is not None and (g.ret == c_(0) or g.ret[0] != "c" and not self.fails(g)):
                            return False
                    elif g.dst not in reach:
                        reach.add(g.dst)
                        work.append(g.dst)
        return True

    def fails(self, g):
        """the returned value is known to be an error on this stretch"""
        return any(x == mk_cmp("eq", g.ret, c_(0)) and t is False or x == mk_not(mk_cmp("eq", g.ret, c_(0))) and t is True for x, t in g.conds)

    def events(self, g, where):
        return [(i, k, a, x, n) for i, k, a, x, n in g.events if where(a)]


def holds(g, e, t):
    """the stretch is only taken when e has truth value t"""
    return any(x == e and y is t or x == mk_not(e) and y is (not t) or e[0] == "not" and x == e[1] and y is (not t) for x, y in g.conds)


def strings(g):
    out = set()
    for e in [x for ev in g.events for x in ev[2:]] + list(g.phis.values()) + list(g.cells.values()) + [a for i, l in g.calls if i.callee in ("strlen", "strcpy") for a in l]:
        for t in atoms(e, ("strlen",)):
            out.add(t[1])
    return out


def pair(ptrs):
    """(header address, key pointer, value pointer) when the pointers are the two members of one header"""
    for a in ptrs:
        for b in ptrs:
            if a[0] == "ld" and b[0] == "ld" and sub(b[1], a[1]) == c_(8):
                return a[1], a, b
    return None


def flat_pair(ptrs, base):
    """(index address, key, value) when the pointers are base + two neighbouring offsets"""
    for a in ptrs:
        for b in ptrs:
            x, y = sub(a, base), sub(b, base)
            if x[0] == "ld" and y[0] == "ld" and sub(y[1], x[1]) == c_(8):
                return x[1], a, b
    return None


def consuming(f, find):
    """stretches that handle a header: segment -> (where, key, value)"""
    out = {}
    for g in f.S.segs:
        p = strings(g)
        if not p:
            continue
        r = find(p)
        if r is None:
            f.c.bad("packet-each", g.at, "%s does not handle the key and the value of one header together (%s)" % (f.name, ", ".join(sorted(sh(x) for x in p))))
            continue
        f.c.ok("packet-each")
        out[g] = r
    return out


def invariants(f, cons):
    return f.S.invariants(lambda g: g in cons, lambda g: add(sl(cons[g][1]), sl(cons[g][2])))


def compare(f, rule, at, got, want, what):
    """got, want: lists of (kind, address, value, length); every wanted one is there and there is nothing else"""
    f.c.count[rule] += len(want)
    for w in want:
        if w not in got:
            near = [x for x in got if x[0] == w[0] and x[1] == w[1]] or [x for x in got if x not in want]
            f.c.bad(rule, at, "%s does not write %s %s at %s%s" % (f.name, what, sh(w[2]), sh(w[1]), "; it has " + "; ".join("%s at %s (%s)" % (sh(x[2]), sh(x[1]), sh(x[3])) for x in near) if near else ""))
            return False
    for x in got:
        if x not in want:
            f.c.bad(rule, at, "%s also writes %s at %s" % (f.name, sh(x[2]), sh(x[1])))
            return False
    return True


def blocks(f, cons, start, get=None):
    """the headers handled are those of the packet's blocks, each once, in order"""
    c = f.c
    seen = False
    for g, (H, kp, vp) in cons.items():
        k, t = lin_parts(H)
        B = I = None
        for a, x in t.items():
            if a[0] == "ld" and x == 1 and a[2] == 8 and a[1][0] in ("phi", "cell"):
                B = a[1]
            elif x == 16 and a[0] in ("phi", "cell"):
                I = a
        if B is None:
            # the iterator does it: one header per successful step, until it says it is done
            it = [(i, a) for i, a in g.calls if i.callee == "a0_packet_header_iterator_next" and a[1] == H]
            if c.expect(len(it) == 1, "packet-order", g.at, "%s handles headers that are not taken from the packet's blocks in order" % f.name):
                i, a = it[0]
                r = mk_cmp("eq", ("call", i.id, i.callee), c_(0))
                c.expect(holds(g, r, True), "packet-order", g.at, "%s handles a header the iterator did not give" % f.name)
                for h in f.ok_rets():
                    c.expect(holds(h, r, False), "packet-order", h.at, "%s finishes before the last header" % f.name)
                for h in f.S.segs:
                    c.expect(h in cons or not any(j.id == i.id for j, _ in h.calls) or holds(h, r, False), "packet-order", h.at, "%s passes over a header" % f.name)
                st = {add(a[0], c_(0)): start, add(a[0], c_(8)): c_(0)}
                for w, x in st.items():
                    c.expect(any(h.cells.get(w) == x and h not in cons for h in f.S.segs), "packet-order", g.at, "%s does not start with the first header" % f.name)
            continue
        seen = True
        rest = sub(H, add(ld(B), times(16, I) if I else c_(0)))
        if not c.expect(I is not None and rest == c_(0), "packet-order", g.at, "%s does not take the headers of a block one after the other" % f.name):
            continue
        step(f, B, I, start, {x for x in cons})
    return seen


def final(g, x):
    if x[0] == "phi":
        return g.phis.get(x[1], x if x[1] not in g.phis else None)
    return g.cells.get(x[1], x)


def step(f, B, I, start, cons):
    """I counts the headers of block B, B walks along the chain from `start` until it ends"""
    c, S = f.c, f.S
    more = mk_cmp("ult", I, ld(add(B, c_(8))))
    for g in S.segs:
        b2, i2 = final(g, B), final(g, I)
        lives_b = B[0] == "cell" or B[1] in g.phis
        lives_i = I[0] == "cell" or I[1] in g.phis
        if g in cons:
            c.expect(holds(g, more, True), "packet-order", g.at, "%s takes a header beyond the end of its block" % f.name)
            if g.dst is None and B[0] == "phi":
                continue
            if lives_i:
                c.expect(i2 == add(I, c_(1)), "packet-order", g.at, "%s does not go on to the next header of the block" % f.name)
            if lives_b:
                c.expect(b2 == B, "packet-order", g.at, "%s leaves a block before its end" % f.name)
            continue
        if lives_b and b2 not in (B, start):
            ok = b2 == ld(add(B, c_(16)))
            c.expect(ok, "packet-order", g.at, "%s does not go on to the next block" % f.name)
            if ok:
                # all headers of the block are done, or it is only skipped in a loop without headers
                c.expect(holds(g, more, False) or g.src == g.dst and not lives_i, "packet-order", g.at, "%s leaves a block before its end" % f.name)
        if lives_i and i2 not in (I, c_(0)):
            c.bad("packet-order", g.at, "%s skips or repeats headers of a block" % f.name)
        if lives_b and b2 == start and b2 != B and lives_i:
            c.expect(i2 == c_(0), "packet-order", g.at, "%s does not start with the first header" % f.name)
        if g.dst is None and g.ret == c_(0):
            c.expect(holds(g, mk_cmp("eq", B, c_(0)), True), "packet-order", g.at, "%s finishes before the last block" % f.name)


def sizes(c):
    """a0_packet_stats: what it counts"""
    c.rule("packet-each", "each header is handled with both its key and its value")
    c.rule("packet-order", "the headers handled are those of all blocks, each once, in order")
    c.rule("packet-size", "the sizes reported are those of the layout: index, strings with their terminators, payload")
    f = Fun(c, "a0_packet_stats")
    S, o = f.S, f.off
    hb, pay = o("a0_packet_s.headers_block"), o("a0_packet_s.payload")
    out = ("arg", 1)
    a0 = ("arg", 0)
    at = {k: add(out, c_(o("a0_packet_stats_s." + k))) for k in ("num_hdrs", "content_size", "serial_size")}
    cons = consuming(f, pair)
    if not cons:
        c.bad("packet-each", f.fn, "the sizes of the headers are not counted")
        return
    invariants(f, cons)
    blocks(f, cons, add(a0, c_(hb)))
    psize = ld(add(a0, c_(pay + 8)))
    # number of headers: one per header, or the sizes of all blocks
    cnt = count_blocks(f, at["num_hdrs"], cons, add(a0, c_(hb)))
    c.expect(cnt, "packet-size", f.fn, "the number of headers reported is not that of all blocks together")
    for g in f.ok_rets():
        cs = S.at(g.cells.get(at["content_size"], ("cell", at["content_size"], 8)))
        c.expect(cs == add(K, psize), "packet-size", g.at, "the content size is %s instead of all strings and the payload" % sh(cs))
        ss = g.cells.get(at["serial_size"], ("cell", at["serial_size"], 8))
        nn = g.cells.get(at["num_hdrs"], ("cell", at["num_hdrs"], 8))
        want = add(c_(53), times(16, nn), g.cells.get(at["content_size"], ("cell", at["content_size"], 8)))
        c.expect(S.at(ss) == S.at(want), "packet-size", g.at, "the serialised size is %s, which is not index plus content" % sh(S.at(ss)))


def count_blocks(f, a, cons, start):
    """the quantity finally stored at a is the number of headers"""
    S = f.S
    # follow the quantity: the cell itself, or the variable stored there at the end
    ends = {g.cells[a] for g in f.ok_rets() if a in g.cells}
    if len(ends) == 1 and next(iter(ends))[0] == "phi":
        q = next(iter(ends))
    else:
        q = ("cell", a, 8)
        if ends and ends != {q}:
            return False
    if S.at(q) == N:
        return True
    # starts at zero, changes only by the size of each block passed
    group = {q}
    for _ in range(4):
        for g in S.segs:
            for p, e in g.phis.items():
                if ("phi", p) in group or any(x in lin_parts(e)[1] for x in group):
                    if q[0] == "phi":
                        for x in lin_parts(e)[1]:
                            if x[0] == "phi" and ("phi", p) in group:
                                group.add(x)
                        if any(x in group for x in lin_parts(e)[1]):
                            group.add(("phi", p))
    init = False
    passed = False
    for g in S.segs:
        vals = [(q, g.cells[a])] if q[0] == "cell" and a in g.cells else [(("phi", p), e) for p, e in g.phis.items() if ("phi", p) in group]
        for x, e in vals:
            if e == c_(0):
                init = True
                continue
            src = [y for y in group if y in lin_parts(e)[1]]
            if not src:
                return False
            d = sub(e, src[0])
            if d == c_(0):
                continue
            if d[0] == "ld" and d[2] == 8:
                B = sub(d[1], c_(8))
                if B[0] in ("phi", "cell"):
                    # the block passed is a member of the chain
                    nxt = [h for h in S.segs if final(h, B) == ld(add(B, c_(16)))]
                    ent = [h for h in S.segs if final(h, B) == start]
                    oth = [h for h in S.segs if (B[0] == "cell" or B[1] in h.phis) and final(h, B) not in (B, start, ld(add(B, c_(16))))]
                    if nxt and ent and not oth and all(h is g or h.src != g.src for h in nxt) and (g in nxt or g.dst is not None and g.dst != g.src):
                        passed = True
                        continue
            return False
    return init and passed


def serialise(c):
    c.rule("packet-alloc", "the buffer is asked for once, with the exact size, and a failure is returned before anything is written")
    c.rule("packet-layout", "the serialised form is id, count, offsets, strings, payload offset and payload, each where the reader looks for it")
    f = Fun(c, "a0_packet_serialize")
    S, o = f.S, f.off
    hb, pay = o("a0_packet_s.headers_block"), o("a0_packet_s.payload")
    a0 = ("arg", 0)
    D, n = alloc_shape(f, lambda s: (ld(s), [ld(add(s, c_(16))), add(c_(53), times(16, ld(s)), ld(add(s, c_(8))))]))
    if D is None:
        return
    # the caller's flat packet, if wanted, is that buffer
    X = D[1]
    vals = {X} if X[0] != "phi" else {g.phis[X[1]] for g in S.segs if X[1] in g.phis}
    given = ("arg", 2)
    ok = given in vals or any(a == given and x == D for g in S.segs for i, k, a, x, nn in g.events)
    c.expect(ok, "packet-alloc", f.fn, "the caller's flat packet is not the buffer that was filled")
    cons = consuming(f, pair)
    if not cons:
        c.bad("packet-each", f.fn, "the headers are not serialised")
        return
    invariants(f, cons)
    blocks(f, cons, add(a0, c_(hb)))
    at = S.at

    def evs(g):
        return [(k, at(a), at(x), at(nn) if isinstance(nn, tuple) else nn) for i, k, a, x, nn in g.events if D in atoms(at(a)) and X not in (a,)]
    base = add(c_(53), times(16, n))
    for g, (H, kp, vp) in cons.items():
        kl = sl(kp)
        kp2, vp2 = at(kp), at(vp)
        want = [("val", add(D, c_(45), times(16, N)), add(base, K), 8),
                ("copy", add(D, base, K), kp2, at(kl)),
                ("val", add(D, c_(53), times(16, N)), add(base, K, at(kl)), 8),
                ("copy", add(D, base, K, at(kl)), vp2, at(sl(vp)))]
        compare(f, "packet-layout", g.at, evs(g), want, "for each header")
    other = [("copy", D, a0, c_(37)), ("val", add(D, c_(37)), n, 8)]
    tail = [("val", add(D, c_(45), times(16, N)), add(base, K), 8), ("val", add(D, c_(45), times(16, n)), add(base, K), 8)]
    psize, pdata = ld(add(a0, c_(pay + 8))), ld(add(a0, c_(pay)))
    load = ("copy", add(D, base, K), pdata, psize)
    for w in other:
        c.expect(f.must(lambda g: w in evs(g)), "packet-layout", f.fn, "%s does not always write %s at %s" % (f.name, sh(w[2]), sh(w[1])))
    c.expect(f.must(lambda g: any(w in evs(g) for w in tail)), "packet-layout", f.fn, "%s does not always write the payload's offset after the header offsets" % f.name)
    c.expect(f.must(lambda g: load in evs(g) or holds(g, mk_cmp("eq", psize, c_(0)), True)), "packet-layout", f.fn, "%s does not always copy the payload behind the strings" % f.name)
    for g in S.segs:
        if g in cons:
            continue
        for e in evs(g):
            c.expect(e in other + tail + [load], "packet-layout", g.at, "%s also writes %s at %s" % (f.name, sh(e[2]), sh(e[1])))


def alloc_shape(f, spec, flat=False):
    """(buffer data, number of headers) from the calls that ask for them; spec: stats -> (number, [accepted sizes])"""
    c = f.c
    sc = [] if flat else f.call("a0_packet_stats")
    al = f.call("a0_alloc")
    if not al or not flat and not sc:
        c.bad("packet-alloc", f.fn, "%s does not ask for a buffer of the packet's size" % f.name)
        return None, None
    n, total = spec(None if flat else sc[0][2][-1])
    out = {a[-1] for g, i, a in al}
    insts = {i.id for g, i, a in al}
    c.expect(len(insts) == 1 and not any(f.fn.can_reach(i, i) for g, i, a in al), "packet-alloc", al[0][1], "%s asks for more than one buffer" % f.name)
    for g, i, a in al:
        c.expect(a[-2] in total, "packet-alloc", i, "%s asks for %s bytes, which is not the packet's size" % (f.name, sh(a[-2])))
    X = next(iter(out))
    # failure is returned
    call = ("call", al[0][1].id, "a0_alloc")
    bad = [g for g in f.S.segs if holds(g, mk_cmp("eq", call, c_(0)), False)]
    c.expect(bool(bad) and all(g.dst is None and (g.ret == call or g.ret[0] == "c" and g.ret != c_(0)) for g in bad), "packet-alloc", al[0][1], "%s does not return the failure to get a buffer" % f.name)
    for g, i, a in al:
        # nothing goes through the buffer before the result was looked at
        if not holds(g, mk_cmp("eq", call, c_(0)), True) and not holds(g, mk_cmp("eq", call, c_(0)), False):
            c.bad("packet-alloc", i, "%s uses the buffer without having checked that it was obtained" % f.name)
    return ld(X), n


def copies(c):
    """deserialise and deep copy: the same target layout from two sources"""
    c.rule("packet-alloc", "the buffer is asked for once, with the exact size, and a failure is returned before anything is written")
    c.rule("packet-copy", "a copy has the id, every header with its own strings inside the buffer, and the payload")
    for name, flat in (("a0_packet_deserialize", True), ("a0_packet_deep_copy", False)):
        f = Fun(c, name)
        S, o = f.S, f.off
        hb, pay = o("a0_packet_s.headers_block"), o("a0_packet_s.payload")
        a0 = ("arg", 0)
        pkt = ("arg", param(f, "out_pkt"))
        buf = ("arg", param(f, "out_buf"))
        IN, INSZ = ("arg", 0), ("arg", 1)
        if flat:
            OB, n = alloc_shape(f, lambda s: (ld(add(IN, c_(37))), [sub(INSZ, c_(53))]), flat=True)
        else:
            OB, n = alloc_shape(f, lambda s: (ld(s), [add(times(16, ld(s)), ld(add(s, c_(8))))]))
        if OB is None:
            continue
        cons = consuming(f, (lambda p: flat_pair(p, IN)) if flat else pair)
        if not cons:
            c.bad("packet-each", f.fn, "%s does not copy the headers" % name)
            continue
        invariants(f, cons)
        at = S.at
        if flat:
            for g, (idx, kp, vp) in cons.items():
                c.expect(at(idx) == add(IN, c_(45), times(16, N)), "packet-order", g.at, "%s looks for the offset of a header at %s" % (name, sh(at(idx))))
                c.expect(any(x == mk_cmp("ult", N, n) and y is True for x, y in [(at(x), y) for x, y in g.conds]), "packet-order", g.at, "%s goes beyond the last header" % name)
            for g in f.ok_rets():
                c.expect(any(x == mk_cmp("ult", N, n) and y is False for x, y in [(at(x), y) for x, y in g.conds]), "packet-order", g.at, "%s stops before the last header" % name)
            src_id, plo = IN, ld(add(IN, c_(45), times(16, n)))
            pdata, psize = add(IN, plo), sub(INSZ, plo)
        else:
            blocks(f, cons, add(a0, c_(hb)))
            src_id = a0
            pdata, psize = ld(add(a0, c_(pay))), ld(add(a0, c_(pay + 8)))
        base = add(OB, times(16, n))

        def evs(g):
            return [(k, at(a), at(x), at(nn) if isinstance(nn, tuple) else nn) for i, k, a, x, nn in g.events if not atoms(a, ("alloca",)) or OB in atoms(at(a))]
        for g, (H, kp, vp) in cons.items():
            kl, vl = at(sl(kp)), at(sl(vp))
            want = [("val", add(OB, times(16, N)), add(base, K), 8),
                    ("copy", add(base, K), at(kp), kl),
                    ("val", add(OB, times(16, N), c_(8)), add(base, K, kl), 8),
                    ("copy", add(base, K, kl), at(vp), vl)]
            compare(f, "packet-copy", g.at, evs(g), want, "for each header")
        need = [("copy", pkt, src_id, c_(37)),
                ("val", add(pkt, c_(hb)), OB, 8), ("val", add(pkt, c_(hb + 8)), n, 8), ("val", add(pkt, c_(hb + 16)), c_(0), 8),
                ("val", add(pkt, c_(pay)), add(base, K), 8), ("val", add(pkt, c_(pay + 8)), psize, 8)]
        for w in need:
            c.expect(f.must(lambda g: w in evs(g)), "packet-copy", f.fn, "%s does not always set %s to %s" % (name, sh(w[1]), sh(w[2])))
        load = ("copy", add(base, K), pdata, psize)
        c.expect(f.must(lambda g: load in evs(g) or holds(g, mk_cmp("eq", psize, c_(0)), True)), "packet-copy", f.fn, "%s does not always copy the payload behind the strings" % name)
        for g in S.segs:
            if g not in cons:
                for e in evs(g):
                    c.expect(e in need + [load], "packet-copy", g.at, "%s also writes %s at %s" % (name, sh(e[2]), sh(e[1])))


def param(f, name):
    k = 0
    for p in f.fn._params():
        if p[1] == name:
            return k
        k += 1
    # by position: the last two are the packet and its buffer
    return k - (2 if name == "out_pkt" else 1)


def accessors(c):
    c.rule("packet-access", "the flat accessors read what serialisation wrote, where it wrote it")
    c.rule("packet-iterate", "iterators give each header once and then say that they are done")
    v = c.prog.view(["a0_packet_init"], [])
    D, SZ = ("arg", 0), ("arg", 1)
    n = ld(add(D, c_(37)))
    plo = ld(add(D, c_(45), times(16, n)))

    def words(f, out):
        r = []
        for g in f.ok_rets():
            r.append((g, {sub(a, out)[1]: x for i, k, a, x, nn in g.events if k == "val" and sub(a, out)[0] == "c"}))
        if not r:
            c.bad("packet-access", f.fn, "%s never succeeds" % f.name)
        return r

    def want(name, out, spec, guard=None):
        f = Fun(c, name)
        for g, w in words(f, out):
            for k, x in spec.items():
                got = w.get(k)
                got = f.S.at(got) if got is not None else None
                c.expect(got == x, "packet-access", g.at, "%s gives %s instead of %s" % (name, sh(got) if got else "nothing", sh(x)))
            if guard is not None:
                c.expect(holds(g, guard, True), "packet-access", g.at, "%s succeeds for an index out of range" % name)
        if guard is not None:
            for g in f.S.segs:
                if g.dst is None and holds(g, guard, True):
                    c.expect(g.ret == c_(0), "packet-access", g.at, "%s fails for an index in range" % name)
        return f
    so = v.offset
    want("a0_flat_packet_id", ("arg", 2), {0: D})
    want("a0_flat_packet_payload", ("arg", 2), {0: add(D, plo), 8: sub(SZ, plo)})
    want("a0_flat_packet_stats", ("arg", 2), {so("a0_packet_stats_s.num_hdrs"): n, so("a0_packet_stats_s.content_size"): sub(SZ, add(c_(53), times(16, n))), so("a0_packet_stats_s.serial_size"): SZ})
    idx = ("arg", 2)
    want("a0_flat_packet_header", ("arg", 3), {0: add(D, ld(add(D, c_(45), times(16, idx)))), 8: add(D, ld(add(D, c_(53), times(16, idx))))}, guard=mk_cmp("ult", idx, n))
    want("a0_flat_packet_header_iterator_init", ("arg", 0), {0: ("arg", 1), 8: c_(0)})
    want("a0_packet_header_iterator_init", ("arg", 0), {0: add(("arg", 1), c_(so("a0_packet_s.headers_block"))), 8: c_(0)})
    # flat iterator: element _idx, then one further
    f = Fun(c, "a0_flat_packet_header_iterator_next", KEEP + NEXT)
    for g in f.S.segs:
        if g.dst is not None:
            continue
        it = ("arg", 0)
        cs = [(i, a) for i, a in g.calls if i.callee == "a0_flat_packet_header"]
        cur = {ld(add(it, c_(8))), ("cell", add(it, c_(8)), 8)}
        ok = len(cs) == 1 and cs[0][1][0] == ld(ld(it)) and cs[0][1][2] in cur and cs[0][1][3] == ("arg", 1) and g.ret == ("call", cs[0][0].id, "a0_flat_packet_header")
        c.expect(ok, "packet-iterate", g.at, "%s does not give the header its position stands for" % f.name)
        nx = g.cells.get(add(it, c_(8)))
        c.expect(nx in {add(x, c_(1)) for x in cur}, "packet-iterate", g.at, "%s does not go on to the next header" % f.name)
    # packet iterator
    f = Fun(c, "a0_packet_header_iterator_next")
    it, out = ("arg", 0), ("arg", 1)
    cons = {}
    for g in f.ok_rets():
        w = {sub(a, out)[1]: x for i, k, a, x, nn in g.events if k == "val" and sub(a, out)[0] == "c"}
        kx, vx = w.get(0), w.get(8)
        ok = kx is not None and vx is not None and kx[0] == "ld" and vx[0] == "ld" and sub(vx[1], kx[1]) == c_(8)
        if c.expect(ok, "packet-iterate", g.at, "%s does not give a whole header" % f.name):
            cons[g] = (kx[1], kx, vx)
    if cons:
        if not walk(f, cons, it):
            c.bad("packet-iterate", f.fn, "%s does not walk the blocks from where it is" % f.name)
    # next_match: repeat until the key matches
    for name, nx in (("a0_packet_header_iterator_next_match", "a0_packet_header_iterator_next"), ("a0_flat_packet_header_iterator_next_match", "a0_flat_packet_header_iterator_next")):
        f = Fun(c, name, KEEP + NEXT)
        key, out = ("arg", 1), ("arg", 2)
        cmpv = [("strcmp", key, ld(out)), ("strcmp", ld(out), key)]

        def matches(g, t):
            return any(holds(g, mk_cmp("eq", x, c_(0)), t) for x in cmpv)
        for g in f.S.segs:
            cs = [(i, a) for i, a in g.calls if i.callee == nx]
            for i, a in cs:
                c.expect(a[0] == ("arg", 0) and a[1] == out, "packet-iterate", i, "%s does not advance the given iterator" % name)
            if g.dst is None:
                if g.ret == c_(0):
                    c.expect(len(cs) == 1 and matches(g, True), "packet-iterate", g.at, "%s succeeds for a header with another key" % name)
                else:
                    c.expect(len(cs) == 1 and g.ret == ("call", cs[0][0].id, nx) and holds(g, mk_cmp("eq", g.ret, c_(0)), False), "packet-iterate", g.at, "%s fails although there may be more headers" % name)
            elif g.src != 0 or cs:
                c.expect(not cs or matches(g, False), "packet-iterate", g.at, "%s passes over a matching header" % name)
        c.expect(any(g.dst is None and g.ret == c_(0) for g in f.S.segs), "packet-iterate", f.fn, "%s never succeeds" % name)
    f = Fun(c, "a0_packet_init")
    for g in f.ok_rets():
        z = all(g.cells.get(add(("arg", 0), c_(k))) == c_(0) for k in (40, 48, 56, 64, 72)) or any(k == "fill" and a == ("arg", 0) and x == c_(0) and nn == c_(80) for i, k, a, x, nn in g.events)
        if g.src == 0:
            c.expect(z, "packet-access", g.at, "a new packet is not empty")


def walk(f, cons, it):
    """the iterator's own position (in memory or in variables) walks the blocks"""
    c, S = f.c, f.S
    ok = False
    for g, (H, kx, vx) in cons.items():
        k, t = lin_parts(H)
        B = I = None
        for a, x in t.items():
            if a[0] == "ld" and x == 1 and a[1][0] in ("phi", "cell", "ld"):
                B = a[1]
            elif x == 16:
                I = a
        if B is None or I is None:
            return False
        ok = True
        c.expect(sub(H, add(ld(B), times(16, I))) == c_(0), "packet-iterate", g.at, "%s does not give the header its position stands for" % f.name)
        more = mk_cmp("ult", I, ld(add(B, c_(8))))
        c.expect(holds(g, more, True), "packet-iterate", g.at, "%s gives a header beyond the end of its block" % f.name)
        nb, ni = g.cells.get(it, ("cell", it, 8)), g.cells.get(add(it, c_(8)))
        c.expect(ni == add(I, c_(1)) and nb == (B if B[0] != "ld" else nb), "packet-iterate", g.at, "%s does not go on to the next header" % f.name)
        for h in S.segs:
            if h in cons:
                continue
            b2 = final(h, B) if B[0] in ("phi", "cell") else B
            i2 = final(h, I) if I[0] in ("phi", "cell") else I
            if B[0] == "phi" and B[1] not in h.phis:
                b2 = B
            if b2 not in (B, ld(it), ("cell", it, 8)):
                c.expect(b2 == ld(add(B, c_(16))) and holds(h, more, False) and i2 == c_(0), "packet-iterate", h.at, "%s passes over headers or blocks" % f.name)
            if h.dst is None:
                c.expect(h.ret != c_(0) and holds(h, mk_cmp("eq", B, c_(0)), True), "packet-iterate", h.at, "%s ends before the last block" % f.name)
    return ok
