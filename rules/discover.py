"""C25: discovery. What the thread that looks for files watches, scans and reports, for every kind of directory entry and event."""
from rules.common import *
from rules.names import Texts, ZC, sub, TOUCH
from rules.writers import public
from rules import rpc
from engine.ir import lin_add, lin_parts, mk_cmp as icmp

IN_CREATE, IN_ISDIR, IN_IGNORED, IN_Q_OVERFLOW = 0x100, 0x40000000, 0x8000, 0x4000
EV_WD, EV_MASK, EV_LEN, EV_NAME = 0, 4, 12, 16
DT_DIR, DT_LNK, DT_REG = 4, 10, 8
EINTR, EAGAIN = 4, 11
EPOLLIN, EPOLL_CTL_ADD = 1, 1


class Find(Texts):
    """what the functions of a discovery thread have in common: the announcement of a file"""

    def __init__(self, c, fn, rule, d, scan, roles):
        self.d, self.scan, self.roles = ("arg", d), scan, roles
        Texts.__init__(self, c, fn, rule, [])

    def at(self, f):
        return lin_add(self.d, ("c", self.fn.view.offset("a0_discovery_s." + f)))

    def keeps(self, w):
        return Texts.keeps(self, w) or w[0] in ("wd", "mem")

    def need(self, cond, i, msg):
        return self.c.expect(cond, self.rule, i, "%s: %s" % (self.name, msg), self.e.path())

    def add(self, st, *fs):
        return st[:5] + (st[5] | set(fs),)

    def drop(self, st, *heads):
        return st[:5] + (frozenset(f for f in st[5] if f[0] not in heads),)

    def cell(self, st, p):
        return next((w for k, w in st[0] if k == p), None)

    def got(self, st, kind):
        return [f for f in st[5] if f[0] == kind]

    def settle(self, st, i):
        """nothing is left to do about the file looked at"""
        for f in self.got(st, "new"):
            self.need(False, i, "a file that is new is not reported")
        for f in self.got(st, "file"):
            self.need(("seen", f[1]) in st[5] or ("nomatch", f[1]) in st[5], i, "a file is not compared with the pattern, or matches and is not reported")
        for f in self.got(st, "dir"):
            self.need(False, i, "a directory is not watched and scanned")
        return self.drop(st, "new", "seen", "nomatch", "file", "dir", "put", "match")

    def forget(self, st):
        """names made for what was looked at are of no further use"""
        cells, vals, ps, kinds, bounds, x = st
        heap = lambda w: w[0] == "buf" and self.fn.insts[w[1]].op == "call"
        return (frozenset(), frozenset(k for k in vals if not heap(k[1])), frozenset(q for q in ps if not heap(q[0])), kinds, frozenset(),
                frozenset(f for f in x if not (f[0][0] == "size" and heap(f[0][1]))))

    def event(self, st, i, ctx):
        if i.op != "call":
            return st
        n = i.callee or ""
        z = is_zero(self.fn, i)
        a = lambda k: self.val(st, ctx, i.ops[k])
        if n == "a0_map_has":
            t = self.text(st, self.cell(st, a(1)) or ZC)
            m = a(0)
            out = []
            for yes in (True, False):
                s2 = self.drop(st, "bool")
                s2 = self.add(s2, ("bool", a(2), yes))
                s2 = self.add(s2, ("has", m, t, yes))
                out.append(Assume(s2, (z, True)))
            return out
        if n == "a0_pathglob_match":
            self.need(a(0) == self.at("_pathglob"), i, "a path is compared with something other than the pattern")
            t = self.text(st, a(1))
            s2 = self.drop(st, "bool")
            return [Assume(self.add(s2, ("bool", a(2), True), ("match", t)), (z, True)), Assume(self.add(s2, ("bool", a(2), False), ("nomatch", t)), (z, True))]
        if n == "a0_map_put":
            return self.put_map(st, i, a(0), self.cell(st, a(1)), self.cell(st, a(2)))
        if n in ("a0_map_del", "a0_map_pop"):
            return self.del_map(st, i, ctx, n, z)
        if n == self.scan:
            t = self.text(st, a(1))
            self.need(a(0) == self.d, i, "another object is asked to scan")
            return self.scanned(st, i, t)
        if i.callee is None:
            r = fptr_role(self.fn, i)
            if r is None or not r.endswith(".fn"):
                raise AnalysisBroken("%s: indirect call at %s" % (self.name, i.where()))
            t = self.text(st, a(1))
            self.need(a(0) == ("mem", self.at("_callback.user_data")), i, "the callback is not given its user data")
            news = [f for f in self.got(st, "has") if f[2] == t and f[3] is False and ("put", f[1], t) in st[5]]
            if not self.need(bool(news), i, "a file is reported without having been found new and remembered"):
                return st
            self.need(("match", t) in st[5], i, "a file is reported that has not been found to match")
            self.need(("seen", t) not in st[5], i, "a file is reported twice")
            self.roles.setdefault("seen", set()).add(off(news[0][1], self.d))
            s2 = st[:5] + (frozenset(f for f in st[5] if not (f[0] in ("has", "new") and f[2] == t)),)
            return self.add(s2, ("seen", t))
        return st

    def put_map(self, st, i, m, key, val):
        t = self.text(st, key) if key is not None else None
        if t is None:
            return st
        b = self.base(key)
        self.need(b[0][0] == "buf" and self.fn.insts[b[0][1]].op == "call", i, "a name is remembered in memory that goes away")
        st = self.add(st, ("put", m, t))
        if ("has", m, t, False) in st[5] and ("match", t) in st[5]:
            st = self.add(st, ("new", m, t))
        return st

    def del_map(self, st, i, ctx, n, z):
        return st

    def scanned(self, st, i, t):
        return st

    def boolean(self, v, yes):
        return [(icmp("eq", v, ZC), not yes), (v, yes)]

    def event_load(self, st, i, ctx, p, v):
        for f in st[5]:
            if f[0] == "bool" and f[1] == p:
                s2 = st
                if f[2]:
                    # a path already remembered needs no report
                    s2 = self.add(s2, *[("seen", h[2]) for h in self.got(st, "has") if h[3] and ("match", h[2]) in st[5] and self.marks(h[1])])
                return Assume(s2, *self.boolean(v, f[2]))
        return None

    def marks(self, m):
        """is m the map of files already reported"""
        self.roles.setdefault("marked", set()).add(off(m, self.d))
        return True


def off(m, d):
    x = sub(m, d)
    return x[1] if x[0] == "c" else None


class Scan(Find):
    """watches a directory and then goes through it"""

    def __init__(self, c, fn, rule, scan, roles):
        Find.__init__(self, c, fn, rule, 0, scan, roles)
        self.path = ("arg", 1)
        self.kinds = [(self.path, ("abs",))]

    def mine(self, t):
        return t == ("text", ((self.path, ZC, ("len", self.path)),))

    def event(self, st, i, ctx):
        n = i.callee or ""
        z = is_zero(self.fn, i)
        v = self.fn.expr(("i", i.id)) if i.op == "call" else None
        a = lambda k: self.val(st, ctx, i.ops[k])
        if i.op != "call":
            return st
        if n in ("inotify_add_watch",):
            self.need(a(0) == ("mem", self.at("_inotify_fd")), i, "the watch is not added to the object's own queue")
            self.need(self.mine(self.text(st, a(1))), i, "the directory watched is not the one scanned")
            self.need(a(2)[0] == "c" and a(2)[1] & IN_CREATE, i, "the watch does not tell of new files")
            neg = [(icmp("slt", v, ZC), True), (icmp("eq", v, ("c", -1)), True)]
            return [Assume(self.add(st, ("watched", i.id), ("owed", i.id)), *[(e, False) for e, _ in neg]),
                    Assume(self.add(st, ("watched", None)), *neg)]
        if n == "a0_file_iter_init":
            self.need(self.mine(self.text(st, a(1))), i, "another directory is scanned than the one given")
            old = [f for f in self.got(st, "has") if f[3] and self.mine(f[2])]
            if self.need(bool(self.got(st, "watched")) or bool(old), i, "a directory is scanned before it is watched"):
                if not self.got(st, "watched"):
                    self.roles.setdefault("watching", set()).add(off(old[0][1], self.d))
            self.owed(st, i)
            s2 = self.drop(st, "watched", "has", "put")
            return [Assume(self.add(s2, ("iter", a(0))), (z, True)), Assume(self.add(s2, ("over",)), (z, False))]
        if n == "a0_file_iter_next":
            self.need(("iter", a(0)) in st[5], i, "an iterator over something else is asked")
            s2 = self.drop(self.settle(st, i), "entry", "has")
            t = ("text", ((("str", "entry"), ZC, ("len", ("str", "entry"))),))
            return [Assume(self.add(s2, ("entry", a(1), k), *([("dir", t)] if k == "dir" else [("file", t)] if k == "file" else [])), (z, True)) for k in ("dir", "file", "link")] + [
                Assume(self.add(s2, ("over",)), (z, False))]
        return Find.event(self, st, i, ctx)

    def step(self, st, i, ctx):
        if i.op == "call" and i.callee == "inotify_add_watch":
            return self.setval(st, i, ("wd", i.id))
        return Find.step(self, st, i, ctx)

    def put_map(self, st, i, m, key, val):
        if key is not None and key[0] == "wd":
            t = self.text(st, val) if val is not None else None
            self.need(self.mine(t), i, "a watch is remembered under another path")
            if t is not None:
                b = self.base(val)
                self.need(b[0][0] == "buf" and self.fn.insts[b[0][1]].op == "call", i, "a name is remembered in memory that goes away")
            self.roles.setdefault("watches", set()).add(off(m, self.d))
            return self.drop(st, "owed")
        st = Find.put_map(self, st, i, m, key, val)
        if key is not None and self.mine(self.text(st, key)) and self.got(st, "watched"):
            self.roles.setdefault("marks watching", set()).add(off(m, self.d))
            self.need(any(f[1] is not None for f in self.got(st, "watched")), i, "a directory that is not watched is remembered as watched")
        return st

    def owed(self, st, i):
        self.need(not self.got(st, "owed"), i, "which path a watch is for is not remembered")

    def scanned(self, st, i, t):
        e = [f for f in st[5] if f[0] == "dir" and f[1] == t]
        self.need(bool(e) or any(f[0] == "entry" and f[2] == "link" for f in st[5]), i, "something other than a directory found is scanned")
        return st[:5] + (st[5] - set(e),)

    def event_load(self, st, i, ctx, p, v):
        view = self.fn.view
        for f in st[5]:
            if f[0] == "entry":
                if p == lin_add(f[1], ("c", view.offset("a0_file_iter_entry_s.d_type"))):
                    t = {"dir": DT_DIR, "link": DT_LNK, "file": DT_REG}[f[2]]
                    return Assume(st, *[(icmp("eq", v, ("c", k)), k == t) for k in (DT_DIR, DT_LNK, DT_REG)])
        return Find.event_load(self, st, i, ctx, p, v)

    def memval(self, st, p):
        for f in st[5]:
            if f[0] == "entry" and p == lin_add(f[1], ("c", self.fn.view.offset("a0_file_iter_entry_s.fullpath"))):
                return ("str", "entry")
        return ("mem", p)

    def final(self, st, i, ctx):
        self.settle(st, i)
        self.owed(st, i)
        self.need(("over",) in st[5], i, "the scan ends before the last entry")


class Thread(Find):
    """the thread: scans, then reports what the queue tells"""

    def __init__(self, c, fn, rule, scan, roles):
        Find.__init__(self, c, fn, rule, 0, scan, roles)
        self.rd = {i.id for i in fn.calls("read")}
        self.evbuf = set()
        for i in fn.calls("read"):
            e = fn.expr(i.ops[1])
            if e[0] == "alloca":
                self.evbuf.add(("buf", e[1]))
        if self.rd and len(self.evbuf) != 1:
            raise AnalysisBroken("%s: events are not read into one local buffer" % fn.name)
        self.evbuf = self.evbuf.pop()
        self.heads = {}

    # the event looked at is where the buffer pointer, moved by what varies in the loop, points
    def canon(self, st, e):
        r = Find.canon(self, st, e)
        n, ts = lin_parts(r)
        if self.evbuf in ts:
            var = [t for t, k in ts.items() if t[0] in ("phi", "any") and k == 1]
            if len(ts) == 2 and len(var) == 1:
                return lin_add(("str", "name"), ("c", n - EV_NAME))
        for h in self.heads.values():
            if h.raw.get("ty") == "ptr" and ts.get(("phi", h.id)) == 1:
                return lin_add(sub(r, ("phi", h.id)), lin_add(("str", "name"), ("c", -EV_NAME)))
        return r

    def evfield(self, k):
        return lin_add(("str", "name"), ("c", k - EV_NAME))

    def dropped(self):
        # what an event says is kept while it is looked at
        return {k for k in self.fn.counters() if self.fn.insts[k].op in ("phi", "add", "sub", "getelementptr", "zext", "sext", "trunc")}

    KINDS = ("file", "dir", "ignored", "overflow", "other")

    def event(self, st, i, ctx):
        n = i.callee or ""
        if i.op == "icmp":
            p, q = (self.val(st, ctx, o) for o in i.ops)
            for x, y in ((p, q), (q, p)):
                if x == ("ready",):
                    which = {("mem", self.at("_inotify_fd")): "queue", ("mem", self.at("_close_fd")): "close"}.get(y)
                    k = [f[1] for f in self.got(st, "ready")]
                    if which and k:
                        return Assume(st, (self.fn.expr(("i", i.id)), (which == k[0]) == (i.pred == "eq")))
            return st
        if i.op != "call":
            return st
        z = is_zero(self.fn, i)
        v = self.fn.expr(("i", i.id))
        a = lambda k: self.val(st, ctx, i.ops[k])
        minus = lambda yes: [(icmp("slt", v, ZC), yes), (icmp("eq", v, ("c", -1)), yes)]
        if n == "epoll_wait":
            self.need(("scanned",) in st[5], i, "the thread waits before the first scan")
            self.need(("ready", "queue") not in st[5], i, "the thread waits again without having read its queue")
            self.need(not any(f[1] == "close" for f in self.got(st, "ready")), i, "the thread waits again after having been told to close")
            self.need(a(0) == ("mem", self.at("_epoll_fd")), i, "the thread waits for something else")
            s2 = self.drop(self.settle(st, i), "ready", "err", "has", "ep")
            s2 = self.add(s2, ("ep", a(1)))
            return [Assume(self.add(s2, ("ready", k)), (z, False), *minus(False)) for k in ("queue", "close")] + [
                Assume(s2, (z, True), *minus(False))] + [Assume(self.add(s2, ("err", e)), (z, False), *minus(True)) for e in (EINTR, 0)]
        if n == "read":
            self.need(a(0) == ("mem", self.at("_inotify_fd")), i, "the thread reads something other than its queue")
            s2 = self.drop(st, "err", "ev", "has")
            if ("ready", "queue") in s2[5]:
                s2 = self.add(self.drop(s2, "ready"), ("ready", "queue", "read"))
            return [Assume(s2, (z, False), *minus(False)), Assume(s2, (z, True), *minus(False))] + [
                Assume(self.add(s2, ("err", e)), (z, False), *minus(True)) for e in (EAGAIN, 0)]
        if n == "a0_map_get":
            ok = off(a(0), self.d)
            self.roles.setdefault("asked", set()).add(ok)
            self.need(a(1) == self.evfield(EV_WD) or self.cell(st, a(1)) == ("mem", self.evfield(EV_WD)), i, "the directory of an event is not looked up by its watch")
            s2 = self.drop(st, "parent")
            return Assume(self.add(s2, ("parent", a(2))), (z, True))
        return Find.event(self, st, i, ctx)

    def scanned(self, st, i, t):
        ev = [f[1] for f in self.got(st, "ev")]
        root = t is not None and t[0] == "text" and len(t[1]) == 1 and t[1][0][0] == ("str", "pattern") and t[1][0][1] == ZC
        if not ev:
            self.need(root, i, "the first scan does not begin with the fixed part of the pattern")
            return self.add(st, ("scanned",))
        if ev[0] == "dir":
            self.need(t == self.where(st), i, "a new directory is scanned under another path")
            return self.add(st, ("dirdone",))
        self.need(root, i, "the scan after lost events does not begin with the fixed part of the pattern")
        return self.add(st, ("again",))

    def where(self, st):
        """path the event is about"""
        par, name = ("str", "parent"), ("str", "name")
        ps = [(par, ZC, ("len", par))] + ([] if ("slash", True) in st[5] else [("lit", "/")]) + [(name, ZC, ("len", name))]
        return ("text", tuple(ps))

    def del_map(self, st, i, ctx, n, z):
        a = lambda k: self.val(st, ctx, i.ops[k])
        m = off(a(0), self.d)
        if n == "a0_map_pop" and (a(1) == self.evfield(EV_WD) or self.cell(st, a(1)) == ("mem", self.evfield(EV_WD))):
            self.roles.setdefault("popped", set()).add(m)
            s2 = self.drop(st, "popslot")
            return [Assume(self.add(s2, ("popslot", a(2)), ("popped", True)), (z, True)), Assume(self.add(s2, ("popped", False)), (z, False))]
        if n == "a0_map_del":
            slot = self.got(st, "popslot")
            if slot and (a(1) == slot[0][1] or self.cell(st, a(1)) == ("mem", slot[0][1])):
                self.roles.setdefault("deleted", set()).add(m)
                return self.add(st, ("deleted",))
        return st

    def event_load(self, st, i, ctx, p, v):
        par = ("str", "parent")
        if p == lin_add(par, sub(("len", par), ("c", 1))):
            return [Assume(self.add(self.drop(st, "slash"), ("slash", s)), *self.known(v, ("is", 47) if s else ("not", (0, 47)))) for s in (True, False)]
        if p[0] == "call" and self.fn.insts[p[1]].callee == "__errno_location":
            k = [f[1] for f in self.got(st, "err")]
            if k:
                return Assume(st, *[(icmp("eq", v, ("c", e)), e == k[0]) for e in (EINTR, EAGAIN)])
        if p in (self.evfield(EV_LEN), self.evfield(EV_MASK)):
            st = self.setval(st, i, ("mem", p))
            ev = [f[1] for f in self.got(st, "ev")]
            out = []
            for k in ev or self.KINDS:
                s2 = st if ev else self.begin(st, k)
                if p == self.evfield(EV_LEN):
                    out.append(Assume(s2, (icmp("eq", v, ZC), k not in ("file", "dir"))))
                else:
                    bits = {"file": IN_CREATE, "dir": IN_CREATE | IN_ISDIR, "ignored": IN_IGNORED, "overflow": IN_Q_OVERFLOW, "other": 0}[k]
                    conds = []
                    for b in (IN_CREATE, IN_ISDIR, IN_IGNORED, IN_Q_OVERFLOW):
                        e = ("and",) + tuple(sorted((v, ("c", b)), key=repr))
                        conds += [(icmp("eq", e, ZC), not bits & b), (icmp("eq", e, ("c", b)), bool(bits & b))]
                    out.append(Assume(s2, *conds))
            return out
        return Find.event_load(self, st, i, ctx, p, v)

    def memval(self, st, p):
        if p == self.at("_pathglob.abspath.data"):
            return ("str", "pattern")
        for f in st[5]:
            if f[0] == "ep" and p == lin_add(f[1], ("c", 4)):
                return ("ready",)
            if f[0] == "parent" and p == ("mem", f[1]):
                return ("str", "parent")
        return ("mem", p)

    def begin(self, st, k):
        return self.add(st, ("ev", k))

    def settle(self, st, i):
        for f in self.got(st, "ev"):
            k = f[1]
            if k == "file":
                w = self.where(st)
                self.need(("seen", w) in st[5] or ("nomatch", w) in st[5], i, "a new file is not compared with the pattern under its own path, or matches and is not reported")
            if k == "dir":
                self.need(("dirdone",) in st[5], i, "a new directory is not watched and scanned")
            if k == "ignored":
                self.need(("popped", False) in st[5] or ("popped", True) in st[5] and ("deleted",) in st[5], i, "a directory that is gone is still remembered as watched")
            if k == "overflow":
                self.need(("again",) in st[5], i, "after lost events nothing is scanned again")
        st = self.drop(st, "ev", "bool", "has", "again", "popped", "deleted", "popslot", "dirdone", "parent", "slash")
        return self.forget(Find.settle(self, st, i))

    def run(self):
        fn = self.fn
        # blocks where the loop over the events begins again
        buf = ("alloca", self.evbuf[1])
        for i in fn.order:
            if i.op == "phi":
                e = ("phi", i.id)
                if any(fn.expr(w) == buf for w, b in i.inc) or any(
                        j.op == "getelementptr" and {e, buf} <= set(lin_parts(fn.expr(("i", j.id)))[1]) for j in fn.order):
                    self.heads[i.block] = i
        if not self.heads:
            at = [i for i in fn.order if i.op == "load" and buf in lin_parts(fn.expr(i.ops[0]))[1]]
            if at:
                self.c.bad(self.rule, at[0], "only the first of the events read is looked at")
                return
        if len(self.heads) != 1:
            raise AnalysisBroken("%s: no one loop over the events" % fn.name)
        Find.run(self)

    def leaves(self, src, dst):
        """the edge leaves the loop over the events for another reason than their end"""
        fn = self.fn
        body = self.body()
        if src not in body or dst in body:
            return False
        t = fn.blocks[src][-1]
        seen, work = set(), [o[1] for o in [t.cond] + t.ops if o and o[0] == "i"]
        while work:
            k = work.pop()
            if k in seen:
                continue
            seen.add(k)
            i = fn.insts[k]
            if i.op == "load":
                continue
            work += [o[1] for o in i.ops if o[0] == "i"]
        return not seen & self.rd

    def body(self):
        """blocks of the loop over the events"""
        if not hasattr(self, "_body"):
            fn = self.fn
            h = next(iter(self.heads))
            pred = {}
            for b, ds in enumerate(fn.succs):
                for d in ds:
                    pred.setdefault(d, set()).add(b)
            # what leads back to the head without a new read
            stop = {fn.insts[k].block for k in self.rd}
            body, work = {h}, [b for b in pred.get(h, ()) if b not in stop]
            while work:
                b = work.pop()
                if b not in body and b not in stop:
                    body.add(b)
                    work += pred.get(b, ())
            fwd, work = set(), [h]
            while work:
                b = work.pop()
                if b not in fwd and b not in stop:
                    fwd.add(b)
                    work += fn.succs[b]
            self._body = body & fwd
        return self._body

    def edge(self, st, facts, ctx, src, dst):
        if self.leaves(src, dst):
            self.need(False, self.fn.blocks[src][-1], "the rest of the events read is passed over")
        h = self.heads.get(dst)
        if h is not None:
            w = next(v for v, b in h.inc if b == src)
            t = self.fn.blocks[src][-1]
            e = self.canon(st, self.fn.expr(w))
            ptr = h.raw.get("ty") == "ptr"
            step = lin_add(self.evfield(0) if ptr else ("phi", h.id), lin_add(("mem", self.evfield(EV_LEN)), ("c", EV_NAME)))
            self.need(e in (self.evbuf if ptr else ZC, step), t, "the next event is not looked for where this one ends")
            return self.settle(st, t)
        return st

    def final(self, st, i, ctx):
        st = self.settle(st, i)
        told = any(f[1] == "close" for f in self.got(st, "ready"))
        err = [f[1] for f in self.got(st, "err")]
        self.need(told or err == [0], i, "the thread ends although it was not told to")


class Init(Find):
    """what the thread waits for"""

    def keeps(self, w):
        return True

    def event(self, st, i, ctx):
        if i.op != "call":
            return st
        n = i.callee or ""
        a = lambda k: self.val(st, ctx, i.ops[k])
        if n == "epoll_ctl" and a(1) == ("c", EPOLL_CTL_ADD):
            fd, ev = a(2), a(3)
            self.need(self.cell(st, lin_add(ev, ("c", 4))) == fd, i, "the thread is not told which descriptor is ready")
            m = self.cell(st, ev)
            self.need(m is not None and m[0] == "c" and m[1] & EPOLLIN, i, "the thread is not woken when there is something to read")
            return self.add(st, ("poll", fd), ("on", a(0)))
        if n == "pthread_create":
            for f in ("_close_fd", "_inotify_fd"):
                self.need(("poll", self.cell(st, self.at(f))) in st[5], i, "the thread starts without waiting for %s" % {"_close_fd": "being closed", "_inotify_fd": "its queue"}[f])
            self.need({f[1] for f in self.got(st, "on")} == {self.cell(st, self.at("_epoll_fd"))}, i, "the thread waits for something else")
            self.need(a(3) == self.d, i, "the thread is given another object")
            self.roles["thread"] = i.ops[2]
            return self.add(st, ("started",))
        return st

    def final(self, st, i, ctx):
        if ctx.truth(icmp("eq", ctx.expr(i.ops[0]), ZC)) is not False:
            self.need(("started",) in st[5], i, "reports success without a thread")


class Close(Find):
    def event(self, st, i, ctx):
        n = i.callee or ""
        if i.op != "call":
            return st
        a = lambda k: self.val(st, ctx, i.ops[k])
        if n == "write" and a(0) == ("mem", self.at("_close_fd")):
            return self.add(st, ("told",))
        if n == "pthread_join":
            self.need(("told",) in st[5], i, "waits for a thread that was not told to end")
            self.need(a(0) == ("mem", self.at("_thread")), i, "waits for another thread")
            return self.add(st, ("joined",))
        return st

    def final(self, st, i, ctx):
        if ctx.truth(icmp("eq", ctx.expr(i.ops[0]), ZC)) is not False:
            self.need(("joined",) in st[5], i, "returns while the thread may still report")


NAME_AT = 19  # of the name in a struct dirent
NAMES = (b".", b"..", b".a", b"..a", b"a", b"aa.")


def entries(c):
    c.rule("disc-entries", "going through a directory gives every entry, except the directory itself and its parent")
    v = c.prog.view(["a0_file_iter_next"], public(c.prog)[1])
    fn = c.use(v["a0_file_iter_next"])
    calls = fn.calls("readdir", "readdir64")
    if not calls:
        c.bad("disc-entries", fn, "the directory is never read")
        return

    def head(ctx, op):
        """(call, offset into the name) of a pointer into the entry read"""
        n, ts = lin_parts(ctx.expr(op))
        if len(ts) == 1:
            (t, k), = ts.items()
            if k == 1 and t[0] == "call" and fn.insts[t[1]] in calls:
                return n - NAME_AT
        return None

    def text(ctx, op):
        e = ctx.expr(op)
        r = v.string(e) if e[0] == "g" else None
        return r.encode() if isinstance(r, str) else r

    # state: the name read, not yet passed on
    def on_inst(st, i, ctx):
        e = fn.expr(("i", i.id)) if i.op in ("call", "load") else None
        if i in calls:
            c.expect(st in (None, "", ".", ".."), "disc-entries", i, "the entry %r is passed over" % st, ex.path())
            return [Assume(n.decode(), (is_zero(fn, i), False)) for n in NAMES] + [Assume("end", (is_zero(fn, i), True))]
        if i.op == "call" and i.callee in ("memcmp", "bcmp", "strcmp", "strncmp") and st and st != "end":
            ks = [(head(ctx, i.ops[0]), text(ctx, i.ops[1])), (head(ctx, i.ops[1]), text(ctx, i.ops[0]))]
            for k, t in ks:
                if k is not None and k >= 0 and t is not None:
                    size = ctx.const(i.ops[2]) if len(i.ops) > 2 else 256
                    if size is None:
                        return st
                    a, b = (st.encode() + bytes(300))[k:k + size], (t + bytes(300))[:size]
                    if i.callee[0] == "s":
                        a, b = a.split(b"\0")[0], b.split(b"\0")[0]
                    return Assume(st, (mk_cmp("eq", e, ("c", 0)), a == b), (is_zero(fn, i), a == b))
        if i.op == "load" and st and st != "end":
            k = head(ctx, i.ops[0])
            if k is not None and 0 <= k < 3 and i.ty == "i8":
                w = (st.encode() + bytes(4))[k]
                return Assume(st, *[(mk_cmp("eq", e, ("c", q)), q == w) for q in (0, 46)])
        return st

    def on_ret(st, i, ctx):
        ok = ctx.truth(mk_cmp("eq", ctx.expr(i.ops[0]), ("c", 0)))
        if ok is not False:
            c.expect(st not in ("", ".", "..", "end"), "disc-entries", i, "the entry %r is given" % st, ex.path())
    ex = Explorer(fn, on_inst=on_inst, on_ret=on_ret, track={i.id for i in fn.order if i.op in ("phi", "load", "call")})
    run(c, ex, "")


def c25(c):
    entries(c)
    c.rule("disc-scan", "a directory is watched before it is scanned; every directory in it is scanned in turn and every file that matches is reported")
    c.rule("disc-once", "a file is reported once: after having been found new and remembered by a name of its own")
    c.rule("disc-event", "every event of the queue is acted on: new files reported, new directories scanned, lost events made up for, watches that are gone forgotten")
    c.rule("disc-close", "the thread waits for its queue and for being closed, and close waits for the thread")
    v0, pub = public(c.prog)
    v = c.prog.view(["a0_discovery_init", "a0_discovery_close"], pub)
    roles = {}
    Init(c, c.use(v["a0_discovery_init"]), "disc-close", 0, None, roles).run()
    Close(c, c.use(v["a0_discovery_close"]), "disc-close", 0, None, roles).run()
    t = roles.get("thread")
    if t is None or t[0] != "f":
        raise AnalysisBroken("discovery starts no thread")
    v = c.prog.view([t[1]], pub)
    fn = c.use(v[t[1]])
    if not fn.calls("read"):
        c.bad("disc-event", fn, "the thread never reads its queue")
        return
    own = {n for n, st, f, ln, sn in v.defined.values() if n not in pub}
    scans = sorted({i.callee for i in fn.order if i.op == "call" and i.callee in own})
    flat = [i for i in fn.calls("a0_file_iter_init") if i.block not in fn.reach()[i.block]]
    if not scans and flat:
        c.bad("disc-scan", flat[0], "directories found in a directory are not scanned in turn")
        return
    if len(scans) != 1:
        raise AnalysisBroken("%s: no one function that scans directories" % fn.name)
    Thread(c, fn, "disc-event", scans[0], roles).run()
    v = c.prog.view(scans, pub)
    Scan(c, c.use(v[scans[0]]), "disc-scan", scans[0], roles).run()
    one = lambda k: len(roles.get(k, ())) == 1 and None not in roles[k]
    c.expect(one("seen") and roles["seen"] == roles.get("marked"), "disc-once", fn, "files are looked up in another map than the one they are remembered in")
    c.expect(one("watches") and roles["watches"] == roles.get("asked"), "disc-event", fn, "the directory of an event is looked up in another map than the one watches are in")
    c.expect(roles.get("popped", set()) <= roles.get("watches", set()), "disc-event", fn, "a watch that is gone is forgotten in another map")
    w = roles.get("watching", set())
    c.expect(w <= roles.get("marks watching", set()), "disc-scan", fn, "a directory is looked up in another map than the one it is remembered in")
    c.expect(w <= roles.get("deleted", set()) or not w, "disc-event", fn, "a directory that is gone is still remembered as watched")
