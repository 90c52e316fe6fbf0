"""Generated ids: C33."""
from rules.common import *
from rules.mutex import tls, reset_at_fork

DRAW = {"jrand48": 0, "nrand48": 0, "erand48": 0}  # generators and the argument their state is
SEED = {"getrandom": (0, 1), "read": (1, 2), "getentropy": (0, 1)}  # buffer, size
HEX = "0123456789abcdef"


def c33(c):
    c.rule("id-seeded", "a thread draws from its generator only after the whole state came from the system's entropy source")
    c.rule("id-tls", "generator state is kept per thread")
    c.rule("id-refresh", "a forked child seeds its generator anew")
    c.rule("id-format", "every id is 32 hex digits and dashes with the version and variant of a random UUID")
    c.rule("id-entropy", "every other bit of an id is its own random bit")
    keep = ["a0_uuidv4", "a0_mrand48"]
    v = c.prog.view(keep, keep, address_taken=True)
    fn = c.use(v["a0_mrand48"])
    draws = [i for i in fn.allcalls() if i.callee in DRAW]
    if not draws:
        raise AnalysisBroken("a0_mrand48 draws from no known generator")
    states = {fn.expr(i.ops[DRAW[i.callee]]) for i in draws}
    if not c.expect(len(states) == 1 and all(s[0] == "g" for s in states), "id-tls", fn, "the generator's state is not one variable"):
        return
    state = next(iter(states))
    tls(c, v, fn, {state[1]})
    flags = set()

    def on_inst(s, i, ctx):
        if i.callee in SEED:
            b, n = SEED[i.callee]
            if ctx.expr(i.ops[b]) == state and ctx.expr(i.ops[n]) == ("c", 6):
                full = mk_cmp("eq", fn.expr(("i", i.id)), ("c", 0 if i.callee == "getentropy" else 6))
                return [Assume("seeded", (full, True)), Assume(s, (full, False))]
        if i.op == "load":
            a = fn.expr(i.ops[0])
            if a[0] == "g" and a != state and v.globals.get(a[1], {}).get("tls"):
                flags.add(a)
                z = is_zero(fn, i)
                if s == "new":
                    return [Assume("marked", (z, False), (tr(i), True)), Assume("new", (z, True), (tr(i), False))]
        if i.op == "store" and fn.expr(i.ops[1]) in flags and ctx.expr(i.ops[0]) != ("c", 0):
            c.expect(s in ("seeded", "marked"), "id-seeded", i, "the generator is marked as seeded without being seeded", ex.path())
        if i in draws:
            c.expect(s in ("seeded", "marked"), "id-seeded", i, "an id can be drawn from a generator that was not seeded", ex.path())
        return s

    def tr(i):
        """the flag tested as a bool"""
        for j in fn.order:
            if j.op == "trunc" and j.ops[0] == ("i", i.id):
                return fn.expr(("i", j.id))
        return mk_cmp("ne", fn.expr(("i", i.id)), ("c", 0))
    ex = Explorer(fn, on_inst=on_inst)
    run(c, ex, "new")
    if flags:
        reset_at_fork(c, v, fn, {a[1] for a in flags}, [i for i in fn.stores() if fn.expr(i.ops[1]) in flags and fn.expr(i.ops[0]) != ("c", 0)], "generator")
    # format
    fn = c.use(v["a0_uuidv4"])
    g = G(fn)
    rets = [i for i in fn.order if i.op == "ret"]
    rnd = {i.id for i in fn.calls("a0_mrand48")}
    for r in rets:
        used = {}
        for k in range(37):
            e = g.before(r, ADD(mk("arg", 0), C(k)), 1)
            if k in (8, 13, 18, 23, 36):
                want = 0 if k == 36 else ord("-")
                c.expect(e.op == "c" and e.a[0] & 255 == want, "id-format", r, "character %d of an id is not %s" % (k, "the end" if k == 36 else "a dash"))
                continue
            ls = [t for t in leaves(digit(e)) if t.op == "call"]
            if not c.expect(len(ls) == 1 and ls[0].a[0] in rnd, "id-entropy", r, "character %d of an id is not made from one random number" % k):
                continue
            ch = digits(v, e, ls[0])
            base = ch(0)
            bits = [b for b in range(32) if ch(1 << b) != base]
            seen = {ch(sum(1 << b for j, b in enumerate(bits) if m >> j & 1)) for m in range(1 << min(len(bits), 8))}
            if k == 14:
                ok = seen == {"4"}
            elif k == 19:
                ok = seen == set("89ab")
            else:
                ok = seen == set(HEX)
            c.expect(ok, "id-format", r, "character %d of an id can be %s" % (k, "".join(sorted(x or "?" for x in seen))))
            mask = sum(1 << b for b in bits)
            for sh in (0, 8, 16, 24):
                for m in range(256):
                    if ch(m << sh) != ch(m << sh & mask):
                        c.bad("id-format", r, "character %d of an id is irregular for random number %#x" % (k, m << sh))
                        break
            for b in bits:
                if not c.expect((ls[0], b) not in used, "id-entropy", r, "characters %d and %d of an id share a random bit" % (used.get((ls[0], b), 0), k)):
                    continue
                used[ls[0], b] = k
        c.expect(len(used) == 122, "id-entropy", r, "an id has %d random bits" % len(used))


def digit(e):
    return e.a[1] if e.op == "clob" else e.a[0] if e.op in ("ld", "mem") else e


def digits(v, e, leaf):
    """function from the random number to the character e"""
    if e.op not in ("clob", "ld", "mem"):
        f = gv.compile_fn([e], [leaf])
        return lambda val: chr(f((val,))[0] & 255).lower()
    gs = [t for t in leaves(digit(e)) if t.op == "g"]
    if len(gs) != 1 or not v.globals.get(gs[0].a[0], {}).get("const"):
        raise AnalysisBroken("digits are looked up at " + show(digit(e)))
    f = gv.compile_fn([digit(e)], [leaf, gs[0]])
    tab = {off: x[1] for off, size, x in v.globals[gs[0].a[0]].get("cells") or () if size == 1}
    return lambda val: chr(tab.get(f((val, 0))[0], 0) & 255).lower()


def fresh(c):
    """every new packet gets an id of its own"""
    c.rule("id-fresh", "a new packet's id is generated for it, whole")
    v = c.prog.view(["a0_packet_init"], ["a0_uuidv4"])
    fn = c.use(v["a0_packet_init"])
    g = G(fn)
    base = ADD(mk("arg", 0), C(v.offset("a0_packet_s.id")))
    calls = {i.id: i for i in fn.calls("a0_uuidv4")}
    for k in range(37):
        x = g.at_ret(ADD(base, C(k)), 1)
        ok = x.op in ("clob", "out") and x.a[0] in calls
        if any(n.op in ("lphi", "lmem") for n in nodes(x)):
            # copied in a loop: that it was generated in this call is all that is decided
            ok = any(g.guard(i) is ONE for i in calls.values())
            c.expect(ok, "id-fresh", fn, "a new packet can have an id that was not generated for it")
            break
        if ok and x.op == "clob":
            ok = ADD(g.val(calls[x.a[0]].ops[0]), C(k)) is x.a[1]
        elif ok:
            ok = (x.a[2] if isinstance(x.a[2], int) else x.a[2].a[0]) == k
        if not c.expect(ok, "id-fresh", fn, "a new packet can have an id that was not generated for it"):
            break
