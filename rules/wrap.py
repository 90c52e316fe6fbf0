"""What the C++ interface asks of the C interface: each method does what the C function of its name does, with what it was given."""
import re
from rules.common import *
from rules.errors import cxx, this
from rules.cxx import DEREF, BYTES, Flow, base

PREFIX = {
    "TransportLocked": "a0_transport", "Transport": "a0_transport", "Deadman": "a0_deadman", "Writer": "a0_writer", "FlatPacket": "a0_flat_packet",
    "Reader": "a0_reader", "ReaderZeroCopy": "a0_reader_zc", "ReaderSync": "a0_reader_sync", "ReaderSyncZeroCopy": "a0_reader_sync_zc",
    "Publisher": "a0_publisher", "Subscriber": "a0_subscriber", "SubscriberZeroCopy": "a0_subscriber_zc", "SubscriberSync": "a0_subscriber_sync",
    "SubscriberSyncZeroCopy": "a0_subscriber_sync_zc", "Cfg": "a0_cfg", "CfgWatcher": "a0_cfg_watcher", "Logger": "a0_logger", "LogListener": "a0_log_listener",
    "RpcServer": "a0_rpc_server", "RpcRequest": "a0_rpc_server", "RpcClient": "a0_rpc_client", "PrpcServer": "a0_prpc_server",
    "PrpcConnection": "a0_prpc_server", "PrpcClient": "a0_prpc_client", "File": "a0_file", "Discovery": "a0_discovery", None: "a0",
}
# names that differ between the two interfaces
OTHER = {
    ("Deadman", "try_take"): "a0_deadman_trytake", ("TransportLocked", "wait_until"): "a0_transport_timedwait", ("TransportLocked", "wait_for"): "a0_transport_timedwait",
    ("FlatPacket", "num_headers"): "a0_flat_packet_stats", ("File", "File"): "a0_file_open",
}
FILEOPTS = (("a0_file_options_s.create_options", 8), ("a0_file_options_s.create_options.mode", 4), ("a0_file_options_s.create_options.dir_mode", 4),
            ("a0_file_options_s.open_options", 4))
STRING = re.compile(r"_ZNSt7__cxx1112basic_stringI.*C[12]E(PKcm|RK|O)")


def wanted(fn, known):
    """the C function a C++ function stands for"""
    cls, name = fn.raw.get("cls"), fn.raw.get("src_name")
    if cls not in PREFIX or (cls is None and not re.match(r"_ZN2a0\d", fn.name)):
        return None
    if (cls, name) in OTHER:
        return OTHER[(cls, name)]
    if name == cls:
        name = "init"
    p = PREFIX[cls]
    timed = any(t == ["struct", "TimeMono"] for t in fn.raw["ditypes"][1:])
    for w in (["%s_%s_timeout" % (p, name), "%s_timed%s" % (p, name)] if timed else []) + ["%s_%s" % (p, name)]:
        if w in known:
            return w
    return None


def wraps(c, pick, least, rules=("wrap-call", "wrap-pass")):
    """pick(class, method, timed): is this method the property's business"""
    CALL, PASS = rules
    c.rule(CALL, "a C++ function does what the C function it stands for does")
    c.rule(PASS, "a C++ function passes on what it was given, and returns what came back")
    v, roots = cxx(c.prog)
    known = {n for n in v.defined if n.startswith("a0_")}
    n = 0
    for name in roots:
        fn = v[name]
        if name.startswith("_ZZ"):
            continue
        w = wanted(fn, known)
        cls, meth = fn.raw.get("cls"), fn.raw.get("src_name")
        timed = any(t == ["struct", "TimeMono"] for t in fn.raw["ditypes"][1:]) or meth in ("wait_for", "wait_until")
        if w is None or not pick(cls, meth, timed):
            continue
        if meth == cls and not any(i.callee and i.callee.startswith("a0_") for i in fn.order):
            continue  # default constructors make nothing
        n += 1
        c.use(fn)
        group = [fn] + [v[m] for m in roots if m.startswith("_ZZ" + name[2:])]
        counterpart(c, v, fn, group, w, known, CALL, PASS)
    if n < least:
        raise AnalysisBroken("only %d C++ functions of the kind were found" % n)


def counterpart(c, v, fn, group, w, known, CALL, PASS):
    same = [(f, i) for f in group for i in f.order if i.op in ("call", "invoke") and i.callee == w]
    pre = w[:len(PREFIX[fn.raw.get("cls")])] + "_"
    alt = {w}
    if not same:
        # other ways to ask for the same
        for f in group:
            g = G(f, clobbers=lambda *a: False)
            for i in f.order:
                if i.op in ("call", "invoke") and i.callee == w + "_timeout" and any(g.val(o) is ZERO or g.val(o).op == "ld" and g.val(o).a[0] is mk("g", "A0_TIMEOUT_NEVER") for o in i.ops):
                    same.append((f, i))
                if i.op in ("call", "invoke") and i.callee == "a0_logger_log" and w == "a0_logger_" + level(v, g, i):
                    same.append((f, i))
        alt |= {i.callee for f, i in same}
    if not same:
        c.bad(CALL, fn, "%s does not do %s" % (nice(fn), w))
        return
    more = sorted({i.callee for f in group for i in f.order if i.op in ("call", "invoke") and (i.callee or "").startswith(pre) and i.callee in known
                   and i.callee not in alt and not i.callee.endswith("_close") and i.callee not in ("a0_transport_unlock", "a0_mtx_lock_successful")})
    more = [x for x in more if fn.raw.get("cls") is not None]
    c.expect(not more, CALL, same[0][1], "%s does %s as well" % (nice(fn), ", ".join(more)))
    if same[0][0] is not fn:
        c.ok(CALL)
        return
    passes(c, v, fn, [i for f, i in same if f is fn], PASS)


def level(v, g, i):
    x = g.val(i.ops[1])
    for k, val in v.enums.items():
        if k.startswith("A0_LOG_LEVEL_") and x.op == "c" and x.a[0] == val:
            return k.rsplit("_", 1)[1].lower()
    return "?"


def nice(fn):
    cls = fn.raw.get("cls")
    return (cls + "::" if cls else "") + (fn.raw.get("src_name") or fn.name)


def derived(g, i, o, size=8):
    """what an operand is made of: itself, and what it points at"""
    x = g.val(o)
    out = [x]
    if g._alloca(x) is not None:
        out.append(g.before(i, x, size))
    return out


def handle(fl, x, arg):
    """x came out of the shared pointer of an argument, or a copy of it"""
    return any(y.op == "call" and DEREF.match(y.a[1] or "") and fl.same(fl.loc(fl.fn.insts[y.a[0]].ops[0]), arg) for y in nodes(x))


def is_param(x, p, tests):
    """does the formula always have the value of parameter p"""
    if leaves(x) != [p]:
        return False
    f = gv.compile_fn([x], [p])
    return all(f((z,))[0] == z for z in tests)


def passes(c, v, fn, same, PASS):
    g = G(fn, clobbers=lambda *a: False)
    fl = Flow(fn)
    me = this(fn)
    off = next((k for k, p in enumerate(fn.params) if p["name"] == "this"), None)
    for i in same:
        what = nice(fn)
        c.ok(PASS)
        ops = [(o, derived(g, i, o)) for o in i.ops]
        meth = fn.raw.get("src_name") != fn.raw.get("cls")
        if me and meth:
            c.expect(any(handle(fl, d, me) for o, ds in ops for d in ds), PASS, i, "%s works on another object" % what)
        k = 0
        ty = list(fn.raw["ditypes"][1:])
        if off is not None:
            ty = ty[1:]
        regs = [q for q, p in enumerate(fn.params) if p["name"] not in ("this", "agg.result")]
        texts = []
        for t in ty:
            if k >= len(regs):
                break
            q = regs[k]
            p = fn.params[q]
            k += 1
            if p["name"].endswith(".coerce0"):
                k += 1
                texts.append(q)
            elif p["ty"].startswith("i") and p["name"] != "dur.coerce":
                tests = [0, 1] if p["ty"] == "i1" else [0, 1, 2, 7, (1 << 32) + 2, (2 << 32) + 1, (1 << 63) + 5] if p["ty"] == "i64" else list(range(9)) + [1 << 30]
                ok = any(is_param(d, mk("arg", q), tests) for o, ds in ops for d in ds[:1])
                c.expect(ok, PASS, i, "%s does not pass on its %s" % (what, p["name"].split(".")[0]))
            elif t in (["struct", "Packet"], ["struct", "TimeMono"], ["struct", "Middleware"], ["struct", "Arena"]):
                ok = any(handle(fl, d, ("arg", q)) for o, ds in ops for d in ds)
                if not ok and t == ["struct", "Arena"]:
                    continue
                c.expect(ok, PASS, i, "%s does not pass on its %s" % (what, p["name"]))
            elif str((t[1] if t[0] == "ptr" else t)[-1]).startswith("basic_string<char"):
                es = [fn.expr(o) for o in i.ops]
                ok = any(e[0] == "call" and BYTES.match(e[2] or "") and fn.expr(fn.insts[e[1]].ops[0]) == ("arg", q) for e in es)
                c.expect(ok, PASS, i, "%s does not pass on its %s" % (what, p["name"]))
        names(c, fn, g, i, what, texts, PASS)
        if any(t[0] == "struct" and t[1].endswith("Topic") and t[1] != "DeadmanTopic" for t in ty) or any("a0_file_options_s" in p.get("byval", "") for p in fn.params):
            c.expect(any(fileopts(v, g, i, o) for o, ds in ops), PASS, i, "%s does not pass on its file options" % what)
        returns(c, fn, g, i, what, PASS)


def fileopts(v, g, i, o):
    """does operand o point at the file options of an argument, each where it belongs"""
    p = g.val(o)
    if g._alloca(p) is None:
        return parts(p)[1].keys() == {mk("arg", k) for k in range(9)} & parts(p)[1].keys()
    at = set()
    for f, size in FILEOPTS:
        k = v.offset(f)
        x = g.before(i, ADD(p, C(k)), size)
        if x.op != "ld" or x.a[1] != size:
            return False
        at.add(ADD(x.a[0], C(k), 1, -1))
    return len(at) == 1 and all(y.op == "arg" for a in at for y in parts(a)[1])


def names(c, fn, g, i, what, texts, PASS):
    """views become terminated copies, in order"""
    if not texts:
        return
    got = []
    for o in i.ops:
        e = fn.expr(o)
        if e[0] == "arg" and e[1] in texts:
            got.append(e[1])
            c.bad(PASS, i, "%s passes on text that may not end where it should" % what)
        elif e[0] == "call" and BYTES.match(e[2] or ""):
            obj = base(fn.expr(fn.insts[e[1]].ops[0]))
            for j in fn.order:
                if j.op in ("call", "invoke") and STRING.match(j.callee or "") and base(fn.expr(j.ops[0])) == obj and fn.dominates(j, i):
                    s = fn.expr(j.ops[1])
                    if s[0] == "arg" and s[1] in texts and fn.expr(j.ops[2]) == ("arg", s[1] + 1):
                        got.append(s[1])
    c.expect(got == texts, PASS, i, "%s does not pass on the names it was given" % what)


def returns(c, fn, g, i, what, PASS):
    if fn.raw.get("ret") in (None, "void", "ptr") and fn.raw["ditypes"][0] == ["void"] or fn.raw.get("ret") == "void":
        return
    x = g.ret()
    outs = [l for l in leaves(x) if l.op == "out" and l.a[0] == i.id]
    if not outs:
        tests = [l for l in leaves(x) if l.op == "call" and l.a[1] == "a0_mtx_lock_successful" and fn.expr(fn.insts[l.a[0]].ops[0]) == fn.expr(("i", i.id))]
        c.expect(bool(tests), PASS, i, "%s does not return what %s gave" % (what, i.callee))
        return
    if fn.raw.get("ret", "").startswith("i") and len(outs) == 1:
        ok = all(subst(x, {outs[0]: C(z)}) is C(z) for z in ((0, 1) if fn.raw["ret"] == "i1" else (0, 1, 5)))
        c.expect(ok, PASS, i, "%s does not return what %s gave" % (what, i.callee))
    else:
        c.ok(PASS)


CURSOR = ("empty", "seq_low", "seq_high", "iter_valid", "has_next", "has_prev", "jump", "jump_head", "jump_tail", "step_next", "step_prev", "frame")
READERS = ("Reader", "ReaderZeroCopy", "ReaderSync", "ReaderSyncZeroCopy")


def c03(c):
    wraps(c, lambda k, m, t: k == "TransportLocked" and m in ("alloc", "commit", "clear"), 3)


def c04(c):
    wraps(c, lambda k, m, t: k == "TransportLocked" and m in ("alloc_evicts", "resize", "used_space"), 3)


def c05(c):
    wraps(c, lambda k, m, t: k == "TransportLocked" and m in CURSOR, 10)


def c09(c):
    wraps(c, lambda k, m, t: t, 8)


def c10(c):
    wraps(c, lambda k, m, t: k == "Deadman" and not t, 6)


def c12(c):
    wraps(c, lambda k, m, t: (k in READERS or m == "read_random_access") and not t, 8)


def c14(c):
    wraps(c, lambda k, m, t: k == "Writer" and m != "Writer", 3)


def c15(c):
    wraps(c, lambda k, m, t: k is None and m.startswith("add_"), 5)


def c16(c):
    wraps(c, lambda k, m, t: k is None and m in ("json_mergepatch", "write_if_empty") or k == "Cfg" and m in ("write", "write_if_empty", "mergepatch"), 5)


def c17(c):
    wraps(c, lambda k, m, t: k == "FlatPacket", 4)


def c18(c):
    wraps(c, lambda k, m, t: k in ("RpcServer", "RpcRequest", "RpcClient") and not t, 4)


def c19(c):
    wraps(c, lambda k, m, t: k in ("PrpcServer", "PrpcConnection", "PrpcClient") and not t, 4)


def c25(c):
    wraps(c, lambda k, m, t: k == "Discovery", 1)


def c27(c):
    wraps(c, lambda k, m, t: k == "File" and m in ("File", "remove", "remove_all") or k is None and m in ("topic_open", "topic_path"), 5)


def c28(c):
    wraps(c, lambda k, m, t: k in ("Logger", "LogListener"), 6)


def c29(c):
    wraps(c, lambda k, m, t: (k or "").startswith(("Publisher", "Subscriber", "CfgWatcher")) and not t or k == "Cfg" and m in ("Cfg", "read", "read_blocking") and not t, 12)
