"""C28 (log levels) and C29 (which file, which messages): what the endpoints of each protocol ask of the layers below."""
import re
from rules.common import *
from rules.writers import public, string_at, no_clobber, LD, ret_is
from rules.rpc import Sent, Packets, param_of, params, is_at, pkt_is, alts
from rules.readers import opt_names

LEVELS = ("crit", "err", "warn", "info", "dbg")


class Log:
    def __init__(self, c):
        self.c = c
        self.v0, pub = public(c.prog)
        self.keep = [n for n in pub if not n.startswith("a0_logger_")]

    def fn(self, name):
        return self.c.use(self.c.prog.view([name], self.keep)[name])


def tags(c, L):
    """(header, {level: text}) of the level of a message"""
    pk = "a0_packet_s"
    out, key = {}, None
    for lv in LEVELS:
        s = Sent(L, "a0_logger_" + lv, "log-tag")
        if not s.ok:
            continue
        c.expect(len(s.hdrs) == 1 and len(s.w) == 1, "log-tag", s.i, "%s does not add its level, and only that" % s.name)
        k = sorted(s.hdrs)[0]
        c.expect(key in (None, k), "log-tag", s.i, "%s says its level under another header than the others" % s.name)
        key = key or k
        c.expect(s.text(k) is not None, "log-tag", s.i, "the level %s says it has is not fixed" % s.name)
        s.keeps("log-tag", mk("arg", param_of(s.fn, pk)), "message")
        done(c, "log-tag", s.fn, s.g, [s.i], "%s reports success without logging" % s.name)
        out[lv] = s.text(k)
    c.expect(len(set(out.values())) == len(out), "log-tag", L.fn("a0_logger_log"), "two levels have the same text")
    s = Sent(L, "a0_logger_log", "log-tag")
    if s.ok:
        s.keeps("log-tag", mk("arg", param_of(s.fn, pk)), "message")
        done(c, "log-tag", s.fn, s.g, [s.i], "%s reports success without logging" % s.name)
        lev = mk("arg", param_of(s.fn, "a0_log_level_e"))
        for lv in LEVELS:
            n = C(s.fn.view.enum("A0_LOG_LEVEL_" + lv.upper()))
            x = s.hdrs.get(key)
            t = None if x is None else string_at(s.fn.view, fold(s.fn.view, subst(x, {lev: n})))
            c.expect(t is not None and t == out.get(lv), "log-tag", s.i, "a message logged at level %s is tagged %s" % (lv.upper(), t))
    return key, out


def done(c, rule, fn, g, cs, msg):
    """whenever fn reports success one of the calls cs was made"""
    x = ZERO
    for i in cs:
        x = OR(x, g.guard(i))
    return c.implies(rule, cs[0], EQ(g.ret(), ZERO, 32), x, lambda v: (0, 1, 2), msg)


def text_test(name, a, b, n):
    """value of a text comparison, 0 when it finds no difference"""
    if name in ("strcasecmp", "strncasecmp"):
        a, b = a.lower(), b.lower()
    a, b = a + "\0", b + "\0"
    if n is not None:
        a, b = a[:n], b[:n]
    return int(a != b)


def listener(c, L, key, out):
    fn = L.fn("a0_log_listener_init")
    # opening a file changes the file object only
    g = G(fn, clobbers=lambda f, x, a: f != "a0_topic_open" and not f.startswith("a0_env_") and no_clobber(f, x, a))
    rd = fn.calls("a0_reader_init")
    fs = {x.a[0] for i in rd for o in i.ops for x in [g.val(o)] if x.op == "f"}
    if len(fs) != 1:
        raise AnalysisBroken("the packet callback of the log listener is not known")
    cb = L.fn(fs.pop())
    cg = G(cb, clobbers=no_clobber)
    v = cb.view
    on = v.offset("a0_log_listener_s._onmsg")
    me = mk("arg", 0)
    calls = [i for i in cb.allcalls() if is_indirect(i)]
    if not calls:
        c.bad("log-filter", cb, "the listener delivers nothing")
        return
    thr, known = {}, {}
    for i in calls:
        c.expect(is_at(cg.val(i.fptr), ADD(me, C(on + 8))) and is_at(cg.val(i.ops[0]), ADD(me, C(on))), "log-filter", i, "what is called is not the listener's callback")
        c.expect(pkt_is(cg, i, cg.val(i.ops[1]), mk("arg", 1)), "log-filter", i, "what is delivered is not the message that came")
        for x in leaves(cg.guard(i)):
            a = field(x)
            if a is ADD(me, C(on + 8)):
                known[x] = C(1)
            elif a is not None:
                thr.setdefault(a, set()).add(x)
    ok = len(thr) == 1
    c.expect(ok, "log-filter", calls[0], "the listener does not compare with one threshold")
    if not ok:
        return
    thr, reads = thr.popitem()
    Q = Packets(L, cb, cg, key, None, "log-filter")
    lvl = {lv: v.enum("A0_LOG_LEVEL_" + lv.upper()) for lv in LEVELS}
    texts = {t: lvl[lv] for lv, t in out.items() if t}
    more = [None, "", "?", "UNKNOWN"] + [t + "X" for t in texts] + [t[:-1] for t in texts]
    for T in list(texts) + [t for t in more if t not in texts]:
        m = {}
        for i in cb.allcalls():
            x = cg.val(("i", i.id))
            if i.id in Q.keyof:
                m[x] = C(0 if T is not None and Q.keyof[i.id] == key else 1)
            elif i.callee in ("strcmp", "strcasecmp", "strncmp", "strncasecmp", "memcmp", "bcmp") and T is not None:
                a, b = cg.val(i.ops[0]), cg.val(i.ops[1])
                n = cg.val(i.ops[2]) if len(i.ops) > 2 else None
                for p, q in ((a, b), (b, a)):
                    s = string_at(v, q)
                    if s is not None and Q.header(p) == key and (n is None or n.op == "c"):
                        m[x] = C(text_test(i.callee, T, s, n.a[0] if n is not None else None))
        for lv, k in lvl.items():
            mm = dict(m)
            mm.update(known)
            mm.update((x, C(k)) for x in reads)
            n = [fold(v, subst(cg.guard(i), mm)) for i in calls]
            want = T in texts and texts[T] <= k
            said = "a message %s, to a listener for %s and worse" % ("without level" if T is None else "tagged \"%s\"" % T, lv.upper())
            if any(x.op != "c" for x in n):
                c.bad("log-filter", calls[0], "whether %s, is delivered depends on something else (%s)" % (said, show(next(x for x in n if x.op != "c"))))
            else:
                c.expect(sum(1 for x in n if x.a[0]) == int(want), "log-filter", calls[0], "%s, is %s" % (said, "not delivered" if want else "delivered"))
    for i in rd:
        k = param_of(fn, "a0_log_level_e")
        x = g.before(i, thr, 4)
        c.expect(x is mk("arg", k), "log-filter", i, "the listener's threshold is not the one it was given")
        for o in (0, 8):
            y = g.before(i, ADD(me, C(on + o)), 8)
            c.expect(part(fn, y, "a0_packet_callback_s", o), "log-filter", i, "the listener's callback is not set before the first message can come")
        j = [q for q, o in enumerate(i.ops) if g.val(o).op == "f"][0]
        c.expect(g.val(i.ops[j - 1]) is me, "log-filter", i, "the listener works with another object's data")


def field(x):
    """address of the caller's memory a leaf was read from"""
    a = x.a[0] if x.op == "ld" else x.a[1] if x.op == "clob" else None
    return a if a is not None and set(parts(a)[1]) == {mk("arg", 0)} else None


def part(fn, x, struct, off, size=8):
    """x is the word at `off` of the parameter of a structure type"""
    for k, name, o, ty in params(fn):
        if struct in str(ty):
            if o == off and x is mk("arg", k):
                return True
            if o == 0 and is_at(x, ADD(mk("arg", k), C(off)), size):
                return True
    return False


def c28(c):
    c.rule("log-tag", "each log call tags its message with its own level, and changes nothing else")
    c.rule("log-filter", "a listener calls back for exactly the messages at least as severe as its threshold")
    L = Log(c)
    key, out = tags(c, L)
    if key:
        listener(c, L, key, out)


# --------------------------------------------------------------------------- C29

PROTO = (("a0_cfg_", "cfg"), ("a0_deadman_", "deadman"), ("a0_log", "log"), ("a0_prpc_", "prpc"), ("a0_rpc_", "rpc"),
         ("a0_publisher_", "pubsub"), ("a0_subscriber_", "pubsub"))
READER = ("a0_reader_init", "a0_reader_zc_init", "a0_reader_sync_init", "a0_reader_sync_zc_init")


def proto(name):
    for p, k in PROTO:
        if name.startswith(p):
            return k
    return None


def arena_of(g, i, k, f, off):
    """does call i take (at operand k) the arena of the file at f"""
    p = g.val(i.ops[k])
    x = g.before(i, p, 8)
    return any(y.op in ("clob", "out", "ld") and (y.a[1] is ADD(f, C(off)) if y.op == "clob" else y.a[0] is ADD(f, C(off)) if y.op == "ld" else True) for y in alts(x))


def c29(c):
    c.rule("ep-topic", "an endpoint opens the file of its own protocol and of the topic it was given")
    c.rule("ep-arena", "an endpoint reads and writes the file it opened")
    c.rule("ep-options", "an endpoint starts and advances the way it promises or was told")
    c.rule("ep-forward", "reading or writing through an endpoint is reading or writing its file")
    v0, keep = public(c.prog)
    v = c.prog.view(keep, keep)
    init, it = opt_names(v)
    aoff = v.offset("a0_file_s.arena")
    me = mk("arg", 0)
    subs = {}  # endpoint -> {constructor: address of what it builds}
    for name in sorted(keep):
        fn = v.get(name)
        p = proto(name)
        if fn is None or not p:
            continue
        op = fn.calls("a0_topic_open")
        rd = [i for i in fn.allcalls() if i.callee in READER]
        wr = fn.calls("a0_writer_init")
        if not (op or rd or wr):
            continue
        c.use(fn)
        g = G(fn, clobbers=no_clobber)
        files = set()
        for i in op:
            t = g.val(i.ops[0])
            c.expect(t.op == "call" and t.a[1] == "a0_env_topic_tmpl_" + p, "ep-topic", i, "%s does not use the template of %s topics" % (name, p))
            st = "a0_%s_topic_s" % p
            c.expect(part(fn, g.val(i.ops[1]), st, 0), "ep-topic", i, "%s does not open the topic it was given" % name)
            if p != "deadman":
                c.expect(part(fn, g.val(i.ops[2]), st, 8), "ep-topic", i, "%s does not use the file options it was given" % name)
            files.add(g.val(i.ops[3]))
        for i in rd + wr:
            by = [k for k in (i.raw.get("byval") or [])]
            k = by[0] if by else 1
            if op:
                ok = any(arena_of(g, i, k, f, aoff) for f in files)
            else:
                x = g.before(i, g.val(i.ops[k]), 8)
                fo = v.offset(struct_of(fn) + "._file")
                ok = is_at(x, ADD(me, C(fo + aoff)))
            c.expect(ok, "ep-arena", i, "%s works on another file than the endpoint's" % name)
            if i.callee in READER:
                options(c, fn, g, i, name, p, init, it)
        if p == "cfg" and rd and not name.endswith("_init"):
            once(c, fn, g, name, rd)
        for i in rd + wr:
            if name.endswith("_init"):
                subs.setdefault(name[:-5], {})[i.callee[:-5]] = g.val(i.ops[0])
    if len(subs) < 10:
        raise AnalysisBroken("only %d endpoints were found" % len(subs))
    forwards(c, v, keep, subs)


def once(c, fn, g, name, rd):
    """a function that reads with a reader of its own reads from that reader, and gives what it read"""
    n = 0
    out = mk("arg", [k for k, nm, o, ty in params(fn) if "a0_packet_s" in str(ty)][-1])
    for i in fn.allcalls():
        if not i.callee.startswith("a0_reader_sync_read"):
            continue
        n += 1
        c.expect(any(g.val(i.ops[0]) is g.val(r.ops[0]) and fn.dominates(r, i) for r in rd), "ep-forward", i, "%s reads from something else than its file" % name)
        c.expect(g.val(i.ops[-1]) is out, "ep-forward", i, "%s does not give what it read" % name)
        ret_is(c, "ep-forward", fn, g, i, "%s does not return the result of reading" % name)
    if not n:
        c.bad("ep-forward", fn, "%s reads nothing" % name)


def struct_of(fn):
    for k, name, off, ty in params(fn):
        m = re.search(r"a0_\w+_s\b", str(ty))
        if k == 0 and m:
            return m.group(0)
    raise AnalysisBroken("%s does not take an endpoint" % fn.name)


def options(c, fn, g, i, name, p, init, it):
    k = opt_index(i)
    x = g.val(i.ops[k])
    if x.op != "c":
        got = [g.before(i, x, 4), g.before(i, ADD(x, C(4)), 4)] if k in (i.raw.get("byval") or []) else None
        if got and all(y.op == "c" for y in got):
            x = C(got[0].a[0] | got[1].a[0] << 32)
    ini = {n: k for k, n in init.items()}
    ite = {n: k for k, n in it.items()}
    if p in ("rpc", "prpc", "cfg"):
        if not c.expect(x.op == "c", "ep-options", i, "%s does not read with fixed options" % name):
            return
        a, b = ini.get(x.a[0] & 0xffffffff), ite.get(x.a[0] >> 32)
        if p == "cfg":
            c.expect(a == "MOST_RECENT" and (b == "NEWEST" or "watcher" not in name), "ep-options", i, "%s starts at %s and goes on with %s" % (name, a, b))
        else:
            c.expect(a == "AWAIT_NEW" and b == "NEXT", "ep-options", i, "%s starts at %s and goes on with %s" % (name, a, b))
    else:
        c.expect(part(fn, x, "a0_reader_options_s", 0), "ep-options", i, "%s does not read with the options it was given" % name)


def opt_index(i):
    for k, name, off, ty in params(i.fn.view[i.callee]):
        if off == 0 and "a0_reader_options_s" in str(ty):
            return k
    raise AnalysisBroken("%s takes no options" % i.callee)


def forwards(c, v, keep, subs):
    me = mk("arg", 0)
    n = 0
    for ep, parts_ in sorted(subs.items()):
        for name in sorted(keep):
            if not name.startswith(ep + "_") or name.endswith(("_init", "_close")):
                continue
            own = [e for e in subs if name.startswith(e + "_")]
            if max(own, key=len) != ep:
                continue
            fn = v.get(name)
            if fn is None:
                continue
            meth = name[len(ep) + 1:]
            for base, addr in parts_.items():
                want = base + "_" + meth
                if meth == "pub" and base == "a0_writer":
                    want = "a0_writer_write"
                if want not in keep:
                    continue
                n += 1
                c.use(fn)
                g = G(fn, clobbers=no_clobber)
                cs = fn.calls(want)
                if not cs:
                    c.bad("ep-forward", fn, "%s does not do %s" % (name, want))
                    continue
                done(c, "ep-forward", fn, g, cs, "%s reports success without %s" % (name, want))
                for i in cs:
                    c.expect(g.val(i.ops[0]) is addr, "ep-forward", i, "%s works on something else than what was opened" % name)
                    for k in range(1, len(i.ops)):
                        x = g.val(i.ops[k])
                        ok = x is mk("arg", k)
                        if not ok and k in (i.raw.get("byval") or []):
                            ok = is_at(g.before(i, x, 8), mk("arg", k))
                        c.expect(ok, "ep-forward", i, "%s does not pass on what it was given" % name)
                    ret_is(c, "ep-forward", fn, g, i, "%s does not return the result of %s" % (name, want))
    if n < 8:
        raise AnalysisBroken("only %d forwarding functions were found" % n)
