"""The C++ objects: C24, and what C18 and C19 say about the C++ clients and servers.

Views have the library's own C++ inlined; the standard library's functions stay calls, so that copies of
shared pointers, lambdas turned into functions, locks and maps can be followed by what they are called on.
"""
import re
from rules.common import *
from rules.errors import cxx
from rules.own import OBJ
from rules.writers import public

COPY = re.compile(r"_ZNSt10shared_ptrI.*(C[12]E(RK|O)|aSE(RK|O))")
DEREF = re.compile(r"_ZNKSt(19__shared_ptr_access|12__shared_ptr)I(.+?)LN9__gnu_cxx.*(deEv|ptEv|3getEv)$")
MAKE = re.compile(r"_ZNSt10shared_ptrI.*C[12]I.*CDeleter")
UGET = re.compile(r"_ZNKSt10unique_ptrI.*3getEv$|_ZNSt10unique_ptrI.*7releaseEv$")
FUNC = re.compile(r"_ZNSt8functionIF.*C[12]I")
FCOPY = re.compile(r"_ZNSt8functionIF.*(C[12]E(RK|O)|aSE(RK|O))")
FCALL = re.compile(r"_ZNKSt8functionIF.*clE")
SWAP = re.compile(r"_ZSt4swapI.*vector|_ZNSt6vectorIh.*(4swapERS|aSEOS|C[12]EOS)|_ZSt11make_sharedISt6vectorIhSaIhEEJS2_E")
BYTES = re.compile(r"_ZNK?St(7__cxx1112basic_stringI|6vectorI).*(5c_strEv|4dataEv)$")
GROW = re.compile(r"_ZNSt6vectorI.*(9push_backE|12emplace_backI|6resizeE|7reserveE)")
MOVEMAP = re.compile(r"_ZNSt(18unordered_multimap|13unordered_map|3map|8multimap)I.*(aSEOS|C[12]EOS|4swapERS)")
NODE = re.compile(r"_ZNKSt8__detail(14_Node_iterator|20_Node_const_iterator).*(ptEv|deEv)$")
# what is copied out of these objects is a value of its own
VALUES = ("a0_time_mono_s", "a0_time_wall_s", "a0_packet_s", "a0_middleware_s", "a0_flat_packet_s")


def calls(fn):
    return [i for i in fn.order if i.op in ("call", "invoke") and i.callee]


def base(e):
    """object an address lies in"""
    while True:
        if e[0] == "lin" and len(e[2]) == 1 and e[2][0][1] == 1:
            e = e[2][0][0]
        else:
            return e


class Flow:
    """where shared pointers and the contents of what they point at go in one function"""

    def __init__(self, fn):
        self.fn = fn
        self.cs = calls(fn)
        self.up = {}
        for i in self.cs:
            if COPY.match(i.callee):
                self.join(self.loc(i.ops[0]), self.loc(i.ops[1]))
            elif FUNC.match(i.callee) or FCOPY.match(i.callee):
                # a function keeps what its lambda captured
                self.join(self.loc(i.ops[0]), self.loc(i.ops[1]))

    def expr(self, o):
        return self.fn.expr(o)

    def owner(self, e):
        """e is a pointer taken out of a smart pointer: that pointer"""
        if e[0] == "call":
            j = self.fn.insts[e[1]]
            if UGET.match(j.callee or "") or DEREF.match(j.callee or ""):
                return ("in", self.loc(j.ops[0]))
        return e

    def loc(self, o):
        """object an operand points into, as one hashable thing"""
        return self.owner(base(self.expr(o)))

    def find(self, x):
        while x in self.up:
            x = self.up[x]
        return x

    def join(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.up[a] = b

    def same(self, a, b):
        return self.find(a) == self.find(b)

    def group(self, x):
        r = self.find(x)
        return {x} | {k for k in self.up if self.find(k) == r} | {r}

    def taint(self, start):
        """(values, objects) the result of call start reaches; objects by what owns them"""
        fn = self.fn
        vals, objs = {start.id}, set()
        while True:
            n = len(vals) + len(objs)
            for i in fn.order:
                hot = any(o[0] == "i" and o[1] in vals for o in i.ops)
                if i.op in ("getelementptr", "phi", "select", "bitcast", "ptrtoint", "inttoptr", "zext", "trunc", "insertvalue", "extractvalue"):
                    if hot:
                        vals.add(i.id)
                elif i.op == "load":
                    if hot or self.loc(i.ops[0]) in objs:
                        vals.add(i.id)
                elif i.op == "store":
                    o = i.ops[0]
                    if o[0] == "i" and o[1] in vals:
                        objs.add(self.loc(i.ops[1]))
                elif i.op in ("call", "invoke"):
                    c = i.callee or ""
                    if c.startswith("llvm.memcpy"):
                        if self.op_hot(i.ops[1], vals, objs):
                            objs.add(self.loc(i.ops[0]))
                    elif c.startswith("a0_"):
                        if any(self.op_hot(o, vals, objs) for o in i.ops):
                            objs |= {self.loc(o) for o in i.ops if self.loc(o)[0] == "in"}
            if len(vals) + len(objs) == n:
                return vals, objs

    def op_hot(self, o, vals, objs):
        return o[0] == "i" and (o[1] in vals or self.loc(o) in objs)


def made(fl):
    """[(call that makes the object, the object, its closure objects, its impl object)]"""
    out = []
    for i in fl.cs:
        if not MAKE.match(i.callee):
            continue
        obj = fl.loc(i.ops[1])
        dele = base(fl.expr(i.ops[2]))
        fns = [j for j in fl.cs if FUNC.match(j.callee) and base(fl.expr(j.ops[0])) == dele]
        impl = [fl.loc(j.ops[1]) for j in fl.cs if COPY.match(j.callee) and base(fl.expr(j.ops[0])) == dele]
        out.append((i, obj, fns, impl))
    return out


def ctype(i):
    m = DEREF.match(i.callee or "")
    if not m:
        return None
    n = re.sub(r"^\d+", "", m.group(2))
    return n


def closes(keep, f):
    """function that undoes the C call f"""
    if f in OBJ:
        return OBJ[f][1] + "_close"
    if f == "a0_transport_lock":
        return "a0_transport_unlock"
    if f.endswith("_init") and f[:-5] + "_close" in keep:
        return f[:-5] + "_close"
    return None


def c24(c):
    c.rule("cxx-keeps", "an object made from another's handle keeps that object alive")
    c.rule("cxx-closes", "releasing an object closes its handle once")
    c.rule("cxx-points", "the memory an object points into is kept by it")
    c.rule("cxx-deleter", "an object's memory and callbacks outlive the closing of its handle")
    keep = public(c.prog)[1]
    v, roots = cxx(c.prog)
    need = []  # (creating call, std::function constructor, close function, closure stores it)
    for n in roots:
        fn = v[n]
        fl = Flow(fn)
        ms = made(fl)
        if not ms:
            continue
        c.use(fn)
        for i, obj, fns, impl in ms:
            for d in fl.cs:
                t = ctype(d)
                if not t or not t.startswith("a0_") or t in VALUES:
                    continue
                src = fl.loc(d.ops[0])
                if ("in", src) == obj:
                    continue
                vals, objs = fl.taint(d)
                if obj not in objs:
                    continue
                have = fl.group(src)
                ok = any(fl.loc(f.ops[1]) in have for f in fns) or any(h[0] == "in" and h[1] in impl for h in have)
                c.expect(ok, "cxx-keeps", i, "the new object uses the %s it was made from but does not keep it" % t[3:-2].replace("_", " "))
            kept = set(impl)
            for f in fns:
                kept |= fl.group(fl.loc(f.ops[1]))
            for j in fn.order:
                if j.op != "store" or fl.loc(j.ops[1]) != obj:
                    continue
                e = base(fl.expr(j.ops[0]))
                if e[0] == "call" and BYTES.match(fn.insts[e[1]].callee or ""):
                    x = fl.loc(fn.insts[e[1]].ops[0])
                    c.expect(x[0] == "in" and x[1] in kept, "cxx-points", j, "the new object points into memory it does not keep")
                    for g in fl.cs:
                        if GROW.match(g.callee) and fl.loc(g.ops[0]) == x and fl.expr(g.ops[0]) == fl.expr(fn.insts[e[1]].ops[0]):
                            c.expect(not after(fn, fn.insts[e[1]], g), "cxx-points", g, "the memory the new object points into may move")
            for g in fl.cs:
                if GROW.match(g.callee) and len(g.ops) > 1 and fl.loc(g.ops[0])[0] == "in" and fl.loc(g.ops[0])[1] in kept:
                    for j, x in sources(fl, g.ops[1]):
                        c.expect(lasts(fl, x, kept), "cxx-points", j, "the new object lists text it does not keep")
            for f in fl.cs:
                k = closes(keep, f.callee) if f.callee.startswith("a0_") else None
                if k and obj in [fl.loc(o) for o in f.ops]:
                    if len(fns) != 1:
                        raise AnalysisBroken("%s: what closes the object is not one function" % i.where())
                    clo = base(fl.expr(fns[0].ops[1]))
                    ptrs = {j.ops[0][1] for j in fn.order if j.op == "store" and j.ops[0][0] == "f" and base(fn.expr(j.ops[1])) == clo}
                    need.append((i, fns[0].callee, k, ptrs))
    w = c.prog.view(sorted({f for i, f, k, p in need}), keep, cxx=True)
    handler = {}
    for i, f, k, p in need:
        hs = {j.ops[0][1] for j in w[f].order if j.op == "store" and j.ops[0][0] == "f" and "_M_invoke" in j.ops[0][1]}
        if len(hs) != 1:
            raise AnalysisBroken("%s: cannot tell what runs when the object is closed" % i.where())
        handler[f] = hs.pop()
    w = c.prog.view(sorted(set(handler.values())), keep, cxx=True)
    for i, f, k, ptrs in need:
        fn = w[handler[f]]
        c.use(fn)

        def closing(j):
            if j.op not in ("call", "invoke"):
                return False
            return j.callee == k or (is_indirect(j) and ptrs == {k})

        def on_inst(st, j, ctx):
            if closing(j):
                c.expect(st == 0, "cxx-closes", j, "%s is called again" % k, e.path())
                return 1
            return st

        def on_ret(st, j, ctx):
            c.expect(st == 1, "cxx-closes", i, "the object is released without %s" % k, e.path())
        e = Explorer(fn, on_inst=on_inst, on_ret=on_ret)
        run(c, e, 0)
    deleters(c, keep)


def after(fn, a, b):
    """can b come after a"""
    return a.block == b.block and a.idx < b.idx or b.block in fn.reach()[a.block]


def sources(fl, o):
    """[(store, container)] of the texts whose pointers the object o holds"""
    fn = fl.fn
    out = []
    for j in fn.order:
        if j.op != "store" or fl.loc(j.ops[1]) != fl.loc(o):
            continue
        e = base(fl.expr(j.ops[0]))
        if e[0] == "call" and BYTES.match(fn.insts[e[1]].callee or ""):
            x = fl.loc(fn.insts[e[1]].ops[0])
            if x[0] == "call" and NODE.match(fn.insts[x[1]].callee or ""):
                it = fl.loc(fn.insts[x[1]].ops[0])
                for k in fn.order:
                    if k.op == "store" and fl.loc(k.ops[1]) == it:
                        b = fl.expr(k.ops[0])
                        if b[0] == "call" and re.search(r"5c?beginEv$", fn.insts[b[1]].callee or ""):
                            out.append((j, fl.loc(fn.insts[b[1]].ops[0])))
            else:
                out.append((j, x))
    return out


def lasts(fl, x, kept):
    """is x part of what is kept, or moved into it as a whole"""
    if x[0] == "in" and x[1] in kept:
        return True
    return any(MOVEMAP.match(j.callee) and fl.loc(j.ops[1]) == x and lasts(fl, fl.loc(j.ops[0]), kept) for j in fl.cs if len(j.ops) > 1 and fl.loc(j.ops[0]) != x)


def deleters(c, keep):
    v = c.prog.view(["a0_transport_lock"], [], cxx=True)
    ds = sorted(n for n in v.defined if re.match(r"_ZN2a012_GLOBAL__N_18CDeleterI.*EclEP", n))
    std = sorted(n for n, st, f, ln, sn in v.defined.values() if not f.startswith(c.prog.repo + "/"))
    if len(ds) < 20:
        raise AnalysisBroken("only %d deleters were found" % len(ds))
    v = c.prog.view(ds, std + keep, cxx=True)
    for n in ds:
        fn = c.use(v[n])

        def on_inst(st, i, ctx):
            if i.op not in ("call", "invoke"):
                return st
            k = i.callee or ""
            if FCALL.match(k):
                c.expect(st in ((0, 0), (0, 2)), "cxx-deleter", i, "what closes the object runs %s" % ("twice" if st[0] else "after the object is gone"), e.path())
                return (1, st[1])
            if re.match(r"_ZNSt10unique_ptrI.*C[12]I", k) and ctx.expr(i.ops[1]) == ("arg", 1):
                return st[:1] + (2,)  # freed on the way out
            if re.match(r"_ZdlPv", k) and ctx.expr(i.ops[0]) == ("arg", 1):
                c.expect(st == (1, 0), "cxx-deleter", i, "the object's memory goes %s" % ("twice" if st[1] else "before it is closed"), e.path())
                return (st[0], 1)
            if re.match(r"_ZNSt(10shared_ptr|12__shared_ptr)I.*(aS|5reset)", k) and base(ctx.expr(i.ops[0])) == ("arg", 0):
                c.expect(st[0] == 1, "cxx-deleter", i, "what the callbacks need goes before the object is closed", e.path())
            return st

        def on_ret(st, i, ctx):
            if st == (1, 0) and ctx.truth(mk_cmp("eq", ("arg", 1), ("c", 0))):
                return  # deleting nothing
            c.expect(st in ((1, 1), (1, 2)), "cxx-deleter", i, "a released object is not closed and freed", e.path())
        e = Explorer(fn, on_inst=on_inst, on_ret=on_ret)
        run(c, e, (0, 0))


# --------------------------------------------------------------------------- packets and their storage

PACKET = re.compile(r"_ZN2a06PacketC[12]E11a0_packet_sSt8function")


def packets_view(prog):
    v = prog.view(["a0_transport_lock"], [], cxx=True)
    src = prog.repo + "/src/"
    pk = [n for n in v.defined if PACKET.match(n)]
    if len(pk) != 1:
        raise AnalysisBroken("the constructor of a packet with storage vanished")
    roots = sorted(n for n, st, f, ln, sn in v.defined.values() if f.startswith(src) and f.endswith(".cpp"))
    keep = sorted(n for n, st, f, ln, sn in v.defined.values() if f.endswith(".c") or not f.startswith(prog.repo + "/"))
    return prog.view(roots, keep + pk, cxx=True), roots, pk[0]


def c24_packets(c):
    c.rule("cxx-packet", "a packet made from received data holds the memory the data is in")
    c.rule("cxx-request", "a request handed to a callback takes the memory its data is in with it")
    c.rule("cxx-alloc", "memory given out for received data is all there")
    v, roots, pk = packets_view(c.prog)
    for n in roots:
        if n == pk:
            continue
        fn = v[n]
        fl = Flow(fn)
        for i in fl.cs:
            if i.callee != pk:
                continue
            c.use(fn)
            have = fl.group(fl.loc(i.ops[2]))
            c.expect(holds(fl, i, have), "cxx-packet", i, "the packet does not hold the memory of its payload")
        for i, obj, fns, impl in made(fl):
            args = {("arg", k) for k, p in enumerate(fn.params) if "byval" in p}
            if not any((j.callee or "").startswith("llvm.memcpy") and fl.loc(j.ops[0]) == obj and came(fl, j.ops[1], args) for j in fn.order if j.op == "call"):
                continue
            c.use(fn)
            ok = any(SWAP.match(j.callee) and any(fl.loc(o)[0] == "in" and fl.loc(o)[1] in impl for o in j.ops) for j in fl.cs)
            c.expect(ok, "cxx-request", i, "the request does not take the memory of its data")
        if allocator(fn):
            c.use(fn)
            alloc(c, fn)


def came(fl, o, args):
    """is the operand (a copy of) one of the arguments"""
    x = fl.loc(o)
    seen = set()
    while x not in args and x not in seen:
        seen.add(x)
        for j in fl.fn.order:
            if (j.callee or "").startswith("llvm.memcpy") and fl.loc(j.ops[0]) == x:
                x = fl.loc(j.ops[1])
                break
    return x in args


def holds(fl, i, have):
    for j in fl.cs:
        if SWAP.match(j.callee) and any(fl.loc(o)[0] == "in" and fl.loc(o)[1] in have or fl.loc(o) in have for o in j.ops):
            return True
    for j in fl.fn.order:
        if j.op == "store" and fl.loc(j.ops[0])[0] == "in" and fl.loc(j.ops[0])[1] in have and base(fl.expr(j.ops[1]))[0] == "alloca":
            return True  # the memory was allocated from it
    x = fl.loc(i.ops[1])
    for j in fl.fn.order:
        if (j.callee or "").startswith("llvm.memcpy") and fl.loc(j.ops[0]) == x:
            s = fl.loc(j.ops[1])
            if s[0] == "in" and s[1] in have:
                return True  # the packet lives in what it holds
    return False


RESIZE = re.compile(r"_ZNSt6vectorIh.*6resizeEm")
DATA = re.compile(r"_ZNSt6vectorIh.*4dataEv")


def allocator(fn):
    return [p["name"] for p in fn.params if p["name"] != "this"][1:] == ["size", "out"] or any(RESIZE.match(i.callee) for i in calls(fn)) and len(fn.params) in (3, 4)


def alloc(c, fn):
    k = 1 if fn.params[0]["name"] == "this" else 0
    size, out = ("arg", k + 1), ("arg", k + 2)

    def on_inst(st, i, ctx):
        vec, data, n = st
        if i.op in ("call", "invoke") and RESIZE.match(i.callee or ""):
            return (ctx.expr(i.ops[0]) if ctx.expr(i.ops[1]) == size else None, False, n)
        if i.op == "store" and base(ctx.expr(i.ops[1])) == out:
            e = ctx.expr(i.ops[0])
            if e == size:
                n = True
            elif e[0] == "call" and DATA.match(fn.insts[e[1]].callee or ""):
                data = vec is not None and fn.expr(fn.insts[e[1]].ops[0]) == vec
        if (i.callee or "").startswith("llvm.memcpy") and base(ctx.expr(i.ops[0])) == out:
            src = base(ctx.expr(i.ops[1]))
            for j in fn.order:
                if j.op == "store" and base(ctx.expr(j.ops[1])) == src:
                    e = ctx.expr(j.ops[0])
                    if e == size:
                        n = True
                    elif e[0] == "call" and DATA.match(fn.insts[e[1]].callee or ""):
                        data = vec is not None and fn.expr(fn.insts[e[1]].ops[0]) == vec
        return (vec, data, n)

    def on_ret(st, i, ctx):
        if ctx.nonzero(i.ops[0]) is not True:
            c.expect(st[0] is not None and st[1] and st[2], "cxx-alloc", i, "%s does not give out as much memory as was asked for" % fn.where(), e.path())
    e = Explorer(fn, on_inst=on_inst, on_ret=on_ret)
    run(c, e, (None, False, False))


# --------------------------------------------------------------------------- C++ clients and servers

LOCK = re.compile(r"_ZNSt11unique_lockISt5mutexEC[12]ERS0_|_ZNSt10lock_guardISt5mutexEC[12]ERS0_")
UNLOCK = re.compile(r"_ZNSt11unique_lockISt5mutexED[12]Ev|_ZNSt10lock_guardISt5mutexED[12]Ev|_ZNSt11unique_lockISt5mutexE6unlockEv")
UMAP = r"_ZNSt13unordered_mapI.*St8functionIFv.*"
FIND = re.compile(UMAP + "(4findE|2atE|ixE)")
FOUND = re.compile(r"_ZNSt8__detail(eq|ne)ERKNS_19_Node_iterator_base|_ZNKSt13unordered_mapI.*5countE")
ERASE = re.compile(UMAP + "5eraseE")
INDEX = re.compile(UMAP + "(ixE|16insert_or_assignI|7emplaceI|6insertE|6insertI)")
STR = re.compile(r"_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC[12]E")


def locked(st, i):
    n = i.callee or ""
    if LOCK.match(n):
        return True
    if UNLOCK.match(n):
        return False
    return st


def reply(c, fn, hdr, done):
    """callback of a C++ client: looks its user's function up and calls it"""
    fl = Flow(fn)
    match = [i for i in fl.cs if i.callee == "a0_packet_header_iterator_next_match"]
    c.expect(bool(match) and all(fn.view.string(i.ops[1]) == hdr for i in match), "cxx-reply", fn, "the reply is not matched by its %s header" % hdr)
    if not match:
        return
    val = fl.loc(match[0].ops[2])

    def keyed(i):
        """is the map looked up with the header's value"""
        k = fl.loc(i.ops[-1])
        for j in fl.cs:
            if STR.match(j.callee) and fl.loc(j.ops[0]) == k:
                l = fn.insts.get(j.ops[1][1]) if j.ops[1][0] == "i" else None
                e = fn.expr(l.ops[0]) if l is not None and l.op == "load" else None
                if e is not None and base(e) == val and e != val:
                    return True
        return False

    def on_inst(st, i, ctx):
        lk, found, erased, got, called = st
        if i.op not in ("call", "invoke"):
            return st
        n = i.callee or ""
        lk = locked(lk, i)
        if FIND.match(n) or ERASE.match(n):
            c.expect(lk, "cxx-reply", i, "the callbacks are looked at without their lock", e.path())
        if FIND.match(n):
            c.expect(keyed(i), "cxx-reply", i, "the callback is not looked up by the id in the reply", e.path())
        if FOUND.match(n):
            found = True
        if ERASE.match(n):
            erased += 1
        if FCOPY.match(n):
            s = fl.loc(i.ops[1])
            if s[0] == "call" and (NODE.match(fn.insts[s[1]].callee or "") or FIND.match(fn.insts[s[1]].callee or "")):
                got = fl.loc(i.ops[0])
        if FCALL.match(n):
            s = fl.loc(i.ops[0])
            mine = got is not None and s == got
            c.expect(mine, "cxx-reply", i, "what is called is not the callback of the reply's request", e.path())
            c.expect(not lk, "cxx-reply", i, "the callback is called with the lock held", e.path())
            c.expect(not called, "cxx-reply", i, "the callback is called twice", e.path())
            want = True if done is None else ctx.nonzero(("a", done))
            c.expect(want is not None and erased == int(want), "cxx-reply", i, "the callback %s" % ("stays registered after its last call" if want else "is forgotten before its last call"), e.path())
            if done is not None:
                c.expect(any(ctx.expr(o) == ("arg", done) for o in i.ops[1:]), "cxx-reply", i, "the callback is not told whether this is the end", e.path())
            called = True
        return (lk, found, erased, got, called)
    def on_ret(st, i, ctx):
        known = all(ctx.nonzero(("i", m.id)) is not False for m in match)
        c.expect(st[4] or st[1] or known, "cxx-reply", i, "%s drops the reply" % fn.where(), e.path())
    e = Explorer(fn, on_inst=on_inst, on_ret=on_ret, track={m.id for m in match})
    run(c, e, (False, False, 0, None, False))


def register(c, fn, send):
    """a C++ client's request: its function is in the map before the C client sends"""
    fl = Flow(fn)
    track = set()
    for i in fl.cs:
        if i.callee == send and i.ops[-1][0] == "i":
            track |= fn.feeds(i.ops[-1][1])

    def on_inst(st, i, ctx):
        lk, reg = st
        if i.op not in ("call", "invoke"):
            return st
        n = i.callee or ""
        lk = locked(lk, i)
        if INDEX.match(n):
            c.expect(lk, "cxx-register", i, "the callbacks are changed without their lock", e.path())
            k = fl.loc(i.ops[1])
            mine = any(STR.match(j.callee) and fl.loc(j.ops[0]) == k and packet_id(fl, j.ops[1]) for j in fl.cs)
            c.expect(mine, "cxx-register", i, "the callback is not registered under the id of its request", e.path())
            reg = True
        if n == send:
            used = ctx.nonzero(i.ops[-1])
            c.expect(reg or used is False, "cxx-register", i, "the request is sent before its callback is registered", e.path())
            c.expect(used is not False or not reg, "cxx-register", i, "the request is sent without the callback that was registered", e.path())
            c.expect(not lk, "cxx-register", i, "the request is sent with the lock held", e.path())
        return (lk, reg)
    e = Explorer(fn, on_inst=on_inst, track=track)
    run(c, e, (False, False))


def packet_id(fl, o):
    x = fl.expr(o)
    if x[0] == "call" and (m := DEREF.match(fl.fn.insts[x[1]].callee or "")):
        return m.group(2).endswith("a0_packet_s")
    return False


def deliver(c, fn):
    """callback of a C++ server or reader: passes on what it gets, once, unless there is no one to pass it to"""
    def on_inst(st, i, ctx):
        n, full, empty = st
        if i.op not in ("call", "invoke"):
            return st
        f = i.callee or ""
        if re.match(r"_ZNKSt8functionIF.*cvbEv$", f):
            z = is_zero(fn, i)
            x = ctx.expr(i.ops[0])
            return [Assume((n, full | {x}, empty), (z, False)), Assume((n, full, True), (z, True))]
        if FCALL.match(f):
            n += 1
            c.expect(n == 1, "cxx-deliver", i, "the user's callback is called twice", e.path())
            if CANCEL.match(f):
                c.expect(ctx.expr(i.ops[0]) in full, "cxx-deliver", i, "a cancellation is passed to a handler that may not exist", e.path())
        return (n, full, empty)

    def on_ret(st, i, ctx):
        c.expect(st[0] or st[2], "cxx-deliver", i, "%s returns without calling the user's callback" % fn.where(), e.path())
    e = Explorer(fn, on_inst=on_inst, on_ret=on_ret)
    run(c, e, (0, frozenset(), False))


def delivers(c, classes, least):
    c.rule("cxx-deliver", "the C++ interface hands each message, request and cancellation to the user's callback once")
    v, roots, pk = packets_view(c.prog)
    n = 0
    for r in roots:
        fn = v[r]
        m = re.match(r"_ZZ+N2a0(?:L?\d+)(\w+?)(?:C[12]E|E)", r)
        if not m or not re.search(r"8__invokeE", r) or not any(re.match(r"%sC[12]E|%s_\w*E" % (k, k), r[r.index(k):]) for k in classes if re.match(r"_ZZ+N2a0L?\d+%s" % k, r)):
            continue
        if len(fn.params) == 3 and any(RESIZE.match(i.callee) for i in calls(fn)):
            continue
        n += 1
        deliver(c, c.use(fn))
    if n < least:
        raise AnalysisBroken("callbacks of %s not found" % ", ".join(classes))


def c12_cxx(c):
    delivers(c, ["Reader", "ReaderZeroCopy", "ReadZeroCopy", "Subscriber", "SubscriberZeroCopy", "SubscriberSyncZeroCopy", "LogListener", "CfgWatcher"], 8)


def c25(c):
    delivers(c, ["Discovery"], 1)


CANCEL = re.compile(r"_ZNKSt8functionIFvN2a011string_viewEEEclES1_")


def client(c, cls, method, cfn, hdr, done, srv):
    c.rule("cxx-register", "a C++ client registers its callback under the request's id before the request is sent")
    c.rule("cxx-reply", "a C++ client calls the function registered for the reply's request, without its lock, and forgets it when done")
    v, roots, pk = packets_view(c.prog)
    n = 0
    for r in roots:
        fn = v[r]
        if re.match(r"_ZN2a0%d%s%d%sE" % (len(cls), cls, len(method), method), r):
            if any(i.callee == cfn for i in calls(fn)):
                register(c, c.use(fn), cfn)
        elif re.match(r"_ZZN2a0%d%s%d%sE.*clEPv" % (len(cls), cls, len(method), method), r):
            if any(FCALL.match(i.callee) for i in calls(fn)):
                n += 1
                reply(c, c.use(fn), hdr, done)
    if not n:
        raise AnalysisBroken("no callback of %s::%s was found" % (cls, method))
    delivers(c, [srv], 2)


def c18_cxx(c):
    client(c, "RpcClient", "send", "a0_rpc_client_send", "a0_req_id", None, "RpcServer")


def c19_cxx(c):
    client(c, "PrpcClient", "connect", "a0_prpc_client_connect", "a0_conn_id", 3, "PrpcServer")
