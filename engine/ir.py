"""Loads the normalised IR of /repo and answers questions about it.

The program is compiled with clang (no optimisation, debug info), every function that is not kept as
a call is inlined, locals become SSA values (engine/irdump.cpp), and everything below works on that
resolved form: expressions, memory definitions, control flow and path-sensitive reachability with
branch correlation. Nothing here executes or symbolically executes the code: loops are handled by a
fixpoint over a finite set of abstract states.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import time
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("A0_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin"
IRDUMP = os.path.join(VERIF, "build", "irdump")


class AnalysisBroken(Exception):
    """The analysis could not be carried out (anchor vanished, tree does not compile, ...)."""


# --------------------------------------------------------------------------- building

CFLAGS = ["-g", "-O0", "-Xclang", "-disable-O0-optnone", "-Xclang", "-disable-llvm-passes",
          "-fno-discard-value-names", "-fPIC", "-DNDEBUG", "-w"]


def ensure_tool():
    if os.path.exists(IRDUMP) and os.path.getmtime(IRDUMP) >= os.path.getmtime(os.path.join(VERIF, "engine", "irdump.cpp")):
        return
    os.makedirs(os.path.dirname(IRDUMP), exist_ok=True)
    cpp = subprocess.check_output([LLVM + "/llvm-config", "--cppflags"], text=True).split()
    tmp = IRDUMP + ".%d" % os.getpid()
    r = subprocess.run(["g++", "-O1", "-std=c++17", "-fno-exceptions", "-fno-rtti"] + cpp +
                       [os.path.join(VERIF, "engine", "irdump.cpp"), "-o", tmp,
                        "-L/usr/lib/llvm-18/lib", "-Wl,-rpath,/usr/lib/llvm-18/lib", "-lLLVM-18"],
                       capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("cannot build irdump: " + r.stderr[-2000:])
    os.replace(tmp, IRDUMP)


class Program:
    """Bitcode of the tree under analysis, in a scratch directory removed at exit."""

    def __init__(self, repo=REPO, extra_c=(), extra_cpp=(), cxx=False):
        ensure_tool()
        self.repo = repo
        self.tmp = tempfile.mkdtemp(prefix="a0sa-")
        self.bc = {}
        srcs = []
        sd = os.path.join(repo, "src")
        for n in sorted(os.listdir(sd)):
            if n.endswith(".c"):
                srcs.append((os.path.join(sd, n), False))
            elif cxx and n.endswith(".cpp"):
                srcs.append((os.path.join(sd, n), True))
        srcs += [(p, False) for p in extra_c] + [(p, True) for p in extra_cpp]
        inc = ["-I" + os.path.join(repo, "include"), "-I" + sd]
        yy = os.path.join(repo, "third_party/yyjson/src")
        inc.append("-I" + (yy if os.path.exists(os.path.join(yy, "yyjson.h")) else os.path.join(VERIF, "stubs")))

        def one(item):
            path, cpp = item
            out = os.path.join(self.tmp, os.path.basename(path).replace(".", "_") + ".bc")
            cmd = [LLVM + ("/clang++" if cpp else "/clang")]
            cmd += ["-std=c++11", "-DA0_EXT_NLOHMANN"] if cpp else ["-std=gnu11"]
            cmd += CFLAGS + inc + ["-c", "-emit-llvm", path, "-o", out]
            r = subprocess.run(cmd, capture_output=True, text=True, cwd=repo)
            return path, out, r

        with ThreadPoolExecutor(max_workers=8) as ex:
            for path, out, r in ex.map(one, srcs):
                if r.returncode:
                    self.close()
                    raise AnalysisBroken("does not compile: %s\n%s" % (path, r.stderr[-1500:]))
                self.bc[os.path.basename(path)] = out
        self._views = {}

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def view(self, roots=(), keep=(), address_taken=False, all_defined=None, only=None, cxx=False):
        """Normalised view. `only` limits the linked files, `cxx` adds the C++ ones."""
        if only is None and not cxx:
            only = [k for k in sorted(self.bc) if k.endswith(".c")]
        key = (tuple(sorted(roots)), tuple(sorted(keep)), address_taken, all_defined, tuple(only) if only else None)
        if key in self._views:
            return self._views[key]
        n = len(self._views)
        files = [self.bc[k] for k in sorted(self.bc) if only is None or k in only]
        lst = os.path.join(self.tmp, "in%d" % n)
        open(lst, "w").write(",".join(files))
        rf = os.path.join(self.tmp, "roots%d" % n)
        open(rf, "w").write(",".join(roots))
        kf = os.path.join(self.tmp, "keep%d" % n)
        open(kf, "w").write(",".join(keep))
        out = os.path.join(self.tmp, "view%d.json" % n)
        cmd = [IRDUMP, "@" + lst, out, "--roots", "@" + rf, "--keep", "@" + kf]
        if address_taken:
            cmd.append("--address-taken")
        if all_defined is not None:
            cmd += ["--all-defined", all_defined]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("irdump failed: " + r.stderr[-1500:])
        v = View(json.load(open(out)), self)
        os.unlink(out)
        self._views[key] = v
        return v


# --------------------------------------------------------------------------- IR classes

def op(x):
    """JSON operand -> hashable tuple."""
    k = x[0]
    if k == "agg":
        return ("agg", tuple(op(y) for y in x[1]))
    return tuple(x)


class Inst:
    __slots__ = ("id", "op", "ty", "loc", "ops", "cond", "succ", "callee", "fptr", "pred", "raw", "block", "idx",
                 "fields", "sfields", "afields", "inc", "off", "var", "fn")

    def __init__(self, d, view, fn):
        self.fn = fn
        self.raw = d
        self.id = d["id"]
        self.op = d["op"]
        self.ty = d["ty"]
        self.loc = d.get("loc", [])
        self.inc = None
        if self.op == "phi":
            self.inc = [(op(v), b) for v, b in d["ops"]]
            self.ops = [v for v, _ in self.inc]
        else:
            self.ops = [op(x) for x in d["ops"]]
        self.cond = op(d["cond"]) if "cond" in d else None
        self.succ = d.get("succ")
        self.callee = d.get("callee")
        self.fptr = op(d["fptr"]) if "fptr" in d else None
        self.pred = d.get("pred")
        self.off = d.get("off")
        self.var = [(op(v), s) for v, s in d["var"]] if "var" in d else None
        self.fields = view.chain(d.get("a0f"))
        self.sfields = view.chain(d.get("a0s"))
        self.afields = [view.chain(x) for x in d["a0a"].split(";")] if "a0a" in d else None

    @property
    def field(self):
        return self.fields[-1] if self.fields else None

    def is_call(self, *names):
        return self.op in ("call", "invoke") and self.callee in names

    def where(self):
        if not self.loc:
            return "%s:?" % self.fn.name
        f, l, s = self.loc[0]
        return "%s:%d (%s)" % (f.replace(REPO + "/", ""), l, s)

    def line(self):
        return (self.loc[0][0], self.loc[0][1]) if self.loc else (None, 0)

    def src_fns(self):
        return [x[2] for x in self.loc]

    def __repr__(self):
        return "%%%d=%s %s" % (self.id, self.op, self.callee or "")


BOOLISH = ("cmp", "not")
CASTS = {"zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "addrspacecast", "freeze"}


def is_bool(e):
    if e[0] in BOOLISH:
        return True
    if e[0] in ("and", "or", "xor"):
        return all(is_bool(x) for x in e[1:])
    if e[0] == "c":
        return e[1] in (0, 1)
    return False


def mk_not(e):
    if e[0] == "not":
        return e[1]
    if e[0] == "c":
        return ("c", 0 if e[1] else 1)
    return ("not", e)


def mk_lin(const, terms):
    t = tuple(sorted(((k, v) for k, v in terms.items() if v), key=repr))
    if not t:
        return ("c", const)
    if const == 0 and len(t) == 1 and t[0][1] == 1:
        return t[0][0]
    if const == 1 and len(t) == 1 and t[0][1] == -1 and is_bool(t[0][0]):
        return mk_not(t[0][0])
    return ("lin", const, t)


def lin_parts(e):
    if e[0] == "c":
        return e[1], {}
    if e[0] == "lin":
        return e[1], dict(e[2])
    return 0, {e: 1}


def lin_add(a, b, sa=1, sb=1):
    ca, ta = lin_parts(a)
    cb, tb = lin_parts(b)
    t = {}
    for k, v in ta.items():
        t[k] = t.get(k, 0) + sa * v
    for k, v in tb.items():
        t[k] = t.get(k, 0) + sb * v
    return mk_lin(sa * ca + sb * cb, t)


def mk_cmp(pred, a, b):
    if a[0] == "c" and b[0] == "c" :
        x, y = a[1], b[1]
        if pred in ("eq", "ne"):
            return ("c", int((x == y) == (pred == "eq")))
        if pred[0] == "u":
            x, y = x % (1 << 64), y % (1 << 64)
        r = {"gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[pred[1:]]
        return ("c", int(r))
    # one of two constants, compared with a constant
    for s, o, left in ((a, b, True), (b, a, False)):
        if s[0] == "sel" and o[0] == "c" and s[2][0] == s[3][0] == "c" and is_bool(s[1]):
            x, y = (mk_cmp(pred, q, o) if left else mk_cmp(pred, o, q) for q in s[2:4])
            return x if x == y else s[1] if x == ("c", 1) else mk_not(s[1])
    if pred == "ne":
        return mk_not(mk_cmp("eq", a, b))
    if pred == "eq":
        if a[0] == "c":
            a, b = b, a
        if b[0] == "c" and is_bool(a) and a[0] != "c":
            if b[1] == 0:
                return mk_not(a)
            if b[1] in (1, -1):
                return a
        if b[0] != "c":
            a, b = sorted((a, b), key=repr)
        return ("cmp", "eq", a, b)
    if pred in ("ugt", "sgt"):
        return mk_cmp(pred[0] + "lt", b, a)
    if pred in ("uge", "sge"):
        return mk_not(mk_cmp(pred[0] + "lt", a, b))
    if pred in ("ule", "sle"):
        return mk_not(mk_cmp(pred[0] + "lt", b, a))
    # x <u 1  <=>  x == 0 ;  0 <u x  <=>  x != 0
    if pred == "ult" and b == ("c", 1):
        return mk_cmp("eq", a, ("c", 0))
    if pred == "ult" and a == ("c", 0):
        return mk_not(mk_cmp("eq", b, ("c", 0)))
    return ("cmp", pred, a, b)


def ids_in(e, acc=None):
    """SSA ids an expression depends on."""
    if acc is None:
        acc = set()
    if isinstance(e, tuple):
        if e and e[0] in ("load", "call", "phi", "op", "alloca", "rmw", "cmpxchg", "out"):
            acc.add(e[1])
            for x in e[2:]:
                if isinstance(x, tuple):
                    ids_in(x, acc)
        else:
            for x in e:
                if isinstance(x, tuple):
                    ids_in(x, acc)
    return acc


def subexprs(e):
    if isinstance(e, tuple):
        yield e
        for x in e:
            if isinstance(x, tuple):
                yield from subexprs(x)


class View:
    def __init__(self, d, prog):
        self.prog = prog
        self.structs = d["structs"]
        self.globals = d["globals"]
        self.enums = d["enums"]
        self.typedefs = d["typedefs"]
        self.rettypes = d["rettypes"]
        self.defined = {x[0]: x for x in d["defined"]}
        self.recursive = set(d["recursive"])
        self.address_taken = set(d["address_taken"])
        self._chain = {}
        self.fns = {n: Fn(f, self) for n, f in d["functions"].items()}

    def __getitem__(self, n):
        if n not in self.fns:
            raise AnalysisBroken("function %s is not defined in the tree" % n)
        return self.fns[n]

    def get(self, n):
        return self.fns.get(n)

    def offset(self, path):
        """'struct.member[.member...]' -> byte offset."""
        parts = path.split(".")
        s = parts[0]
        off = 0
        for m in parts[1:]:
            st = self.structs.get(s) or self.structs.get(self._td(s))
            if not st:
                raise AnalysisBroken("unknown struct " + s)
            for name, o, sz, ty in st["members"]:
                if name == m:
                    off += o
                    s = ty[1] if ty[0] == "struct" else None
                    break
            else:
                raise AnalysisBroken("struct %s has no member %s" % (s, m))
        return off

    def _td(self, n):
        t = self.typedefs.get(n)
        return t[1] if t and t[0] == "struct" else None

    def sizeof(self, s):
        st = self.structs.get(s) or self.structs.get(self._td(s))
        if not st:
            raise AnalysisBroken("unknown struct " + s)
        return st["size"]

    def member_at(self, s, off):
        st = self.structs.get(s)
        if not st:
            return None
        for name, o, sz, ty in st["members"]:
            if o == off:
                return name
        return None

    def enum(self, n):
        if n not in self.enums:
            raise AnalysisBroken("enumerator %s vanished" % n)
        return self.enums[n]

    def chain(self, s):
        if not s:
            return ()
        if s in self._chain:
            return self._chain[s]
        out = []
        for p in s.split("/"):
            st, off = p.rsplit("@", 1)
            m = self.member_at(st, int(off))
            out.append("%s.%s" % (st, m if m is not None else "@" + off))
        self._chain[s] = tuple(out)
        return self._chain[s]

    def string(self, v):
        """C string a global operand points to, or None."""
        if v[0] != "g":
            return None
        g = self.globals.get(v[1])
        if not g or "init" not in g:
            return None
        i = g["init"]
        if i[0] == "str":
            return i[1][v[2]:] if v[2] else i[1]
        if i[0] == "z":
            return ""
        return None


def const_cell(view, name, off, size):
    """operand stored at an offset of a constant global, or None"""
    g = view.globals.get(name)
    if not g or not g.get("const"):
        return None
    m = g.get("_cells")
    if m is None:
        m = g["_cells"] = {(o, s): x for o, s, x in g.get("cells") or []}
    return m.get((off, size))


def type_path(view, ty, off):
    """Resolve byte offset inside a DI type to (list of 'struct.member', leaf type)."""
    path = []
    while True:
        if ty[0] == "struct":
            st = view.structs.get(ty[1])
            if not st:
                return path, ty, off
            hit = None
            for name, o, sz, t in st["members"]:
                if o <= off < o + max(sz, 1):
                    hit = (name, o, t)
            if hit is None:
                return path, ty, off
            path.append("%s.%s" % (ty[1], hit[0]))
            off -= hit[1]
            ty = hit[2]
            continue
        if ty[0] == "arr":
            return path, ty, off
        return path, ty, off


class Fn:
    def __init__(self, d, view):
        self.view = view
        self.name = d["name"]
        self.raw = d
        self.file = d.get("file", "").replace(REPO + "/", "")
        self.line = d.get("line", 0)
        self.src_name = d.get("src_name", self.name)
        self.params = d["params"]
        self.blocks = []
        self.insts = {}
        self.order = []
        for b in d["blocks"]:
            blk = [Inst(i, view, self) for i in b["insts"]]
            for k, i in enumerate(blk):
                i.block = b["id"]
                i.idx = k
                self.insts[i.id] = i
                self.order.append(i)
            self.blocks.append(blk)
        self.succs = [list(dict.fromkeys(b[-1].succ or [])) if b else [] for b in self.blocks]
        self.preds = [[] for _ in self.blocks]
        for b, ss in enumerate(self.succs):
            for s in ss:
                self.preds[s].append(b)
        self._e = {}
        self._sh = {}
        self._ptypes = None
        self._reach = None
        self._memdef = {}
        self._rel = {}

    # ---- basics
    def calls(self, *names):
        return [i for i in self.order if i.op in ("call", "invoke") and i.callee in names]

    def allcalls(self):
        return [i for i in self.order if i.op in ("call", "invoke") and not (i.callee or "").startswith("llvm.dbg")]

    def rets(self):
        return [i for i in self.order if i.op == "ret"]

    def stores(self, field=None):
        return [i for i in self.order if i.op == "store" and (field is None or self.field_of(i) == field)]

    def loads(self, field=None):
        return [i for i in self.order if i.op == "load" and (field is None or self.field_of(i) == field)]

    def where(self):
        return "%s:%d (%s)" % (self.file, self.line, self.src_name)

    # ---- parameters
    def _params(self):
        """[(source position, source name, byte offset, full DI type)] per IR parameter"""
        if self._ptypes is None:
            dit = self.raw.get("ditypes", [])
            out = []
            pos = -1
            for p in self.params:
                nm = p["name"]
                if "sret" in p:
                    out.append((None, "sret", 0, None))
                    continue
                m = re.match(r"^(.*?)\.?coerce(\d*)$", nm)
                off = 8 * int(m.group(2) or 0) if m else 0
                if not off:
                    pos += 1
                t = dit[pos + 1] if pos + 1 < len(dit) else None
                out.append((pos, m.group(1) if m else nm, off, t))
            self._ptypes = out
        return self._ptypes

    def param_type(self, n):
        """(source name, DI type of the IR value, DI type of the whole parameter, byte offset in it)"""
        if n >= len(self.params):
            return (None, None, None, 0)
        pos, nm, off, t = self._params()[n]
        if t is None:
            return (nm, None, None, 0)
        if "byval" in self.params[n]:
            return (nm, ["ptr", t], None, 0)
        if "coerce" in self.params[n]["name"]:
            path, lt, rest = type_path(self.view, t, off)
            return (nm, lt, t, off)
        return (nm, t, None, 0)

    def arg(self, pos, off=0):
        """IR index of the source parameter at position `pos` (byte offset `off` of a coerced struct)"""
        for k, (p, nm, o, t) in enumerate(self._params()):
            if p == pos and o == off:
                return k
        raise AnalysisBroken("%s has no parameter %d+%d" % (self.name, pos, off))

    def param_index(self, name, off=0):
        """IR index of the source parameter `name` (byte offset `off` for coerced structs)."""
        for k, (p, nm, o, t) in enumerate(self._params()):
            if nm == name and o == off:
                return k
        raise AnalysisBroken("%s has no parameter %s" % (self.name, name))

    # ---- expressions
    def expr(self, v, env=None):
        if env:
            return self._expr(v, env, {})
        return self._expr(v, None, self._e)

    def _expr(self, v, env, memo):
        if v[0] == "c":
            return ("c", v[1])
        if v[0] == "a":
            return ("arg", v[1])
        if v[0] != "i":
            if v[0] == "u":
                return ("undef",)
            return v
        if env and v[1] in env:
            return self._expr(env[v[1]], env, memo)
        if v[1] in memo:
            return memo[v[1]]
        memo[v[1]] = ("op", v[1])  # cycle guard (only reached through phis, which are leaves)
        r = self._expr_i(self.insts[v[1]], env, memo)
        memo[v[1]] = r
        return r

    def narrow(self, v, ty):
        """whether a value fits the type by construction: it was extended from it"""
        while v[0] == "i":
            i = self.insts[v[1]]
            if i.op in ("zext", "sext"):
                t = self.insts[i.ops[0][1]].ty if i.ops[0][0] == "i" else None
                if t is None or int(t[1:]) <= int(ty[1:]):
                    return True
            elif i.op != "freeze":
                return False
            v = i.ops[0]
        return v[0] != "i" and v[0] != "a"

    def _expr_i(self, i, env, memo):
        o = i.op
        E = lambda x: self._expr(x, env, memo)
        if o == "trunc" and i.ty in ("i8", "i16"):
            e = E(i.ops[0])
            return e if e[0] == "c" or self.narrow(i.ops[0], i.ty) else ("trunc", i.ty, e)
        if o in CASTS:
            return E(i.ops[0])
        if o == "getelementptr":
            if i.var is None:
                return ("op", i.id)
            e = lin_add(E(i.ops[0]), ("c", i.off))
            for val, sc in i.var:
                e = lin_add(e, E(val), 1, sc)
            return e
        if o == "add":
            return lin_add(E(i.ops[0]), E(i.ops[1]))
        if o == "sub":
            return lin_add(E(i.ops[0]), E(i.ops[1]), 1, -1)
        if o == "mul":
            a, b = E(i.ops[0]), E(i.ops[1])
            if a[0] == "c":
                a, b = b, a
            if b[0] == "c":
                c, t = lin_parts(a)
                return mk_lin(c * b[1], {k: x * b[1] for k, x in t.items()})
            return ("mul",) + tuple(sorted((a, b), key=repr))
        if o == "shl":
            a, b = E(i.ops[0]), E(i.ops[1])
            if b[0] == "c" and 0 <= b[1] < 64:
                c, t = lin_parts(a)
                return mk_lin(c << b[1], {k: x << b[1] for k, x in t.items()})
            return ("shl", a, b)
        if o == "icmp":
            return mk_cmp(i.pred, E(i.ops[0]), E(i.ops[1]))
        if o == "xor":
            a, b = E(i.ops[0]), E(i.ops[1])
            if a[0] == "c":
                a, b = b, a
            if b[0] == "c" and (i.ty == "i1" or (is_bool(a) and b[1] == 1)):
                return mk_not(a) if b[1] else a
            return ("xor",) + tuple(sorted((a, b), key=repr))
        if o in ("and", "or"):
            a, b = E(i.ops[0]), E(i.ops[1])
            if a[0] == "c" and b[0] == "c":
                return ("c", a[1] & b[1] if o == "and" else a[1] | b[1])
            flat = []
            for x in (a, b):
                flat += list(x[1:]) if x[0] == o else [x]
            return (o,) + tuple(sorted(set(flat), key=repr))
        if o == "select":
            c, a, b = E(i.ops[0]), E(i.ops[1]), E(i.ops[2])
            if c[0] == "c":
                return a if c[1] else b
            if i.ty == "i1":
                if b == ("c", 0):
                    return ("and",) + tuple(sorted({c, a}, key=repr))
                if a == ("c", 1):
                    return ("or",) + tuple(sorted({c, b}, key=repr))
            if c[0] == "not":
                c, a, b = c[1], b, a
            return ("sel", c, a, b)
        if o == "load":
            fw = self.alloca_value(i)
            if fw is not None:
                if fw[0] == "v":
                    return E(fw[1])
                return fw[1]
            return ("load", i.id, self.field_of(i))
        if o in ("call", "invoke"):
            if i.callee and i.callee.startswith("llvm.expect"):
                return E(i.ops[0])
            if i.callee and i.callee.startswith("llvm.threadlocal.address"):
                return E(i.ops[0])
            return ("call", i.id, i.callee)
        if o == "phi":
            vals = {E(x) for x in i.ops if x != ("i", i.id)} if len(i.ops) == 1 else None
            if vals and len(vals) == 1:
                return vals.pop()
            return ("phi", i.id)
        if o == "alloca":
            return ("alloca", i.id)
        if o == "extractvalue":
            a = E(i.ops[0])
            return ("ext", a, tuple(i.raw["ix"]))
        if o == "insertvalue":
            return ("ins", E(i.ops[0]), E(i.ops[1]), tuple(i.raw["ix"]))
        if o == "atomicrmw":
            return ("rmw", i.id)
        if o == "cmpxchg":
            return ("cmpxchg", i.id)
        if o in ("udiv", "sdiv", "urem", "srem", "lshr", "ashr"):
            a, b = E(i.ops[0]), E(i.ops[1])
            if a[0] == "c" and b[0] == "c" and b[1] > 0 and a[1] >= 0:
                if o in ("udiv", "sdiv"):
                    return ("c", a[1] // b[1])
                if o in ("urem", "srem"):
                    return ("c", a[1] % b[1])
                return ("c", a[1] >> b[1])
            return (o, a, b)
        return ("op", i.id)

    # ---- shapes: expressions with loads named by access path instead of by instruction
    def shape(self, v, env=None):
        return self.eshape(self.expr(v, env))

    def eshape(self, e, depth=0):
        if not isinstance(e, tuple) or not e:
            return e
        if e in self._sh:
            return self._sh[e]
        if depth > 60:
            return ("deep",)
        if e[0] == "load":
            i = self.insts[e[1]]
            r = ("ld", self.eshape(self.expr(i.ops[0]), depth + 1), i.raw.get("sz"))
        elif e[0] == "lin":
            c, t = e[1], {}
            for k, x in e[2]:
                ks = self.eshape(k, depth + 1)
                t[ks] = t.get(ks, 0) + x
            r = mk_lin(c, t)
        elif e[0] in ("cmp",):
            r = mk_cmp(e[1], self.eshape(e[2], depth + 1), self.eshape(e[3], depth + 1))
        elif e[0] in ("and", "or", "xor"):
            r = (e[0],) + tuple(sorted({self.eshape(x, depth + 1) for x in e[1:]}, key=repr))
        elif e[0] in ("call", "phi", "op", "alloca", "arg", "c", "g", "f", "rmw", "cmpxchg", "out"):
            r = e
        else:
            r = tuple(self.eshape(x, depth + 1) if isinstance(x, tuple) else x for x in e)
        self._sh[e] = r
        return r

    # ---- fields
    def field_of(self, i):
        """innermost 'struct.member' accessed by a load/store (annotation first, then inference)."""
        if i.fields:
            return i.fields[-1]
        p = self.infer_path(self.addr_of(i))
        return p[-1] if p else None

    def addr_of(self, i):
        if i.op == "load":
            return i.ops[0]
        if i.op == "store":
            return i.ops[1]
        return i.ops[0]

    def infer_path(self, addr):
        if addr[0] == "i" and self.insts[addr[1]].fields:
            return self.insts[addr[1]].fields
        e = self.expr(addr) if addr[0] in ("i", "a", "c", "g", "u", "f", "z") else addr
        c, t = lin_parts(e)
        for base, coef in t.items():
            if coef != 1:
                continue
            ty = self.type_of(base)
            if ty and ty[0] == "ptr" and ty[1][0] == "struct":
                path, leaf, rest = type_path(self.view, ty[1], c)
                return tuple(path)
        return ()

    def type_of(self, e):
        """DI type of an expression, when it can be told."""
        if e[0] == "arg":
            return self.param_type(e[1])[1]
        if e[0] == "alloca":
            a = self.insts[e[1]].raw.get("alty", "")
            if a.startswith("%"):
                return ["ptr", ["struct", a[1:].replace("struct.", "")]]
            return None
        if e[0] == "load":
            i = self.insts[e[1]]
            if i.fields:
                st, m = i.fields[-1].split(".", 1)
                for name, o, sz, ty in self.view.structs.get(st, {"members": []})["members"]:
                    if name == m:
                        while ty[0] == "struct":  # access to the first scalar of a nested struct
                            mem = self.view.structs.get(ty[1], {"members": []})["members"]
                            if not mem:
                                break
                            ty = mem[0][3]
                        return ty
                return None
            ad = self.expr(i.ops[0])
            c, t = lin_parts(ad)
            for base, coef in t.items():
                if coef == 1:
                    bt = self.type_of(base)
                    if bt and bt[0] == "ptr":
                        path, leaf, rest = type_path(self.view, bt[1], c)
                        return leaf
            return None
        if e[0] == "call":
            return self.view.rettypes.get(e[2])
        if e[0] == "lin":
            p = self.infer_path(e)
            if p:
                st, m = p[-1].split(".", 1)
                for name, o, sz, ty in self.view.structs.get(st, {"members": []})["members"]:
                    if name == m:
                        return ["ptr", ty]
        return None

    # ---- memory definitions of locals
    def alloca_base(self, addr):
        """(alloca id, const offset or None) if the address is inside a local, else None."""
        e = self.expr(addr) if addr and addr[0] in ("i", "a", "c", "g", "u", "f", "z") else addr
        c, t = lin_parts(e)
        al = [k for k in t if k[0] == "alloca"]
        if len(al) != 1:
            return None
        return al[0][1], (c if len(t) == 1 else None)

    def writes_local(self, i, aid, off, size):
        """How instruction i affects bytes [off, off+size) of local aid: None, or a def tuple."""
        if i.op == "store":
            b = self.alloca_base(i.ops[1])
            if b and b[0] == aid:
                if b[1] is None or off is None:
                    return ("may", i)
                s = i.raw.get("sz", 8)
                if b[1] == off and s == size:
                    return ("v", i.ops[0], i)
                if b[1] < off + size and off < b[1] + s:
                    return ("may", i)
            return None
        if i.op in ("call", "invoke"):
            cn = i.callee or ""
            if cn.startswith("llvm.lifetime") or cn.startswith("llvm.dbg"):
                return None
            if cn.startswith("llvm.memset"):
                b = self.alloca_base(i.ops[0])
                if b and b[0] == aid:
                    n = self.expr(i.ops[2])
                    if b[1] is not None and off is not None and n[0] == "c" and i.ops[1][0] == "c" and i.ops[1][1] == 0:
                        if b[1] <= off and off + size <= b[1] + n[1]:
                            return ("v", ("c", 0, 64), i)
                        if b[1] >= off + size or off >= b[1] + n[1]:
                            return None
                    return ("may", i)
                return None
            if cn.startswith("llvm.memcpy") or cn.startswith("llvm.memmove"):
                b = self.alloca_base(i.ops[0])
                if b and b[0] == aid:
                    n = self.expr(i.ops[2])
                    if b[1] is not None and off is not None and n[0] == "c":
                        if b[1] >= off + size or off >= b[1] + n[1]:
                            return None
                        if b[1] <= off and off + size <= b[1] + n[1]:
                            return ("copy", i, off - b[1])
                    return ("may", i)
                return None
            for k, a in enumerate(i.ops):
                b = self.alloca_base(a)
                if b and b[0] == aid:
                    if k in (i.raw.get("byval") or []):
                        continue
                    if cn in READONLY_ARGS and (READONLY_ARGS[cn] is None or k in READONLY_ARGS[cn]):
                        continue
                    return ("out", i, k, None if (b[1] is None or off is None) else off - b[1])
            # reachable through another local passed by pointer?
            for k, a in enumerate(i.ops):
                b = self.alloca_base(a)
                if b and b[0] != aid and k not in (i.raw.get("byval") or []) and self.local_holds(b[0], aid):
                    if cn in READONLY_ARGS or (i.callee and i.callee.endswith("_pred")):
                        continue
                    return ("may", i)
            return None
        if i.op in ("atomicrmw", "cmpxchg"):
            b = self.alloca_base(i.ops[0])
            if b and b[0] == aid:
                return ("may", i)
        return None

    def local_holds(self, holder, aid):
        for s in self.order:
            if s.op == "store":
                b = self.alloca_base(s.ops[1])
                if b and b[0] == holder:
                    v = self.alloca_base(s.ops[0])
                    if v and v[0] == aid:
                        return True
        return False

    def reaching(self, inst, classify):
        """Walk backwards from inst; classify(i) returns None (transparent) or a def. Returns the set
        of defs that reach, plus ('entry',) if the function entry does."""
        out = []
        seen = set()
        work = [(inst.block, inst.idx)]
        while work:
            b, k = work.pop()
            hit = False
            blk = self.blocks[b]
            for j in range(k - 1, -1, -1):
                d = classify(blk[j])
                if d is not None:
                    if d not in out:
                        out.append(d)
                    hit = True
                    break
            if hit:
                continue
            if b == 0 and ("entry",) not in out:
                out.append(("entry",))
            for p in self.preds[b]:
                if p not in seen:
                    seen.add(p)
                    work.append((p, len(self.blocks[p])))
        return out

    def alloca_value(self, load):
        """Value a load from a local is known to yield: ('v', operand) or ('e', expr), or None."""
        if load.id in self._memdef:
            return self._memdef[load.id]
        self._memdef[load.id] = None
        b = self.alloca_base(load.ops[0])
        r = None
        if b:
            aid, off = b
            size = load.raw.get("sz", 8)
            defs = self.reaching(load, lambda i: self.writes_local(i, aid, off, size))
            if len(defs) == 1:
                d = defs[0]
                if d[0] == "v":
                    r = ("v", d[1])
                elif d[0] == "out" and d[3] is not None:
                    r = ("e", ("out", d[1].id, d[2], d[3], d[1].callee))
                elif d[0] == "copy":
                    src = lin_add(self.expr(d[1].ops[1]), ("c", d[2]))
                    r = ("e", ("mem", d[1].id, src))
            elif len(defs) > 1 and all(d[0] == "v" for d in defs):
                vals = {self.expr(d[1]) for d in defs}
                if len(vals) == 1:
                    r = ("v", defs[0][1])
        self._memdef[load.id] = r
        return r

    # ---- CFG queries
    def reach(self):
        if self._reach is None:
            n = len(self.blocks)
            R = [set() for _ in range(n)]
            for b in range(n):
                st = list(self.succs[b])
                while st:
                    x = st.pop()
                    if x in R[b]:
                        continue
                    R[b].add(x)
                    st += self.succs[x]
            self._reach = R
        return self._reach

    def can_reach(self, a, b):
        """instruction a can be followed by instruction b on some CFG path"""
        if a.block == b.block and a.idx < b.idx:
            return True
        return b.block in self.reach()[a.block]

    def dominators(self):
        if not hasattr(self, "_dom"):
            n = len(self.blocks)
            full = set(range(n))
            dom = [set(full) for _ in range(n)]
            dom[0] = {0}
            ch = True
            while ch:
                ch = False
                for b in range(1, n):
                    ps = [dom[p] for p in self.preds[b]]
                    nd = set.intersection(*ps) if ps else set()
                    nd = nd | {b}
                    if nd != dom[b]:
                        dom[b] = nd
                        ch = True
            self._dom = dom
        return self._dom

    def dominates(self, a, b):
        if a.block == b.block:
            return a.idx < b.idx
        return a.block in self.dominators()[b.block]

    def feeds(self, id):
        """ids a value is computed from"""
        if not hasattr(self, "_feeds"):
            self._feeds = {}
        r = self._feeds.get(id)
        if r is None:
            r = set()
            work = [id]
            while work:
                k = work.pop()
                if k in r:
                    continue
                r.add(k)
                ins = self.insts[k]
                if ins.op in ("call", "invoke") and not (ins.callee or "").startswith("llvm.expect"):
                    continue
                if ins.op == "load":
                    fw = self.alloca_value(ins)
                    if fw and fw[0] == "v" and fw[1][0] == "i":
                        work.append(fw[1][1])
                    elif fw and fw[0] == "e":
                        r |= ids_in(fw[1])
                    continue
                work += [x[1] for x in ins.ops if x[0] == "i"]
                if ins.op == "getelementptr":
                    work += [x[1] for x, k in ins.var or () if x[0] == "i"]
            self._feeds[id] = r
        return r

    # ---- relevance: which SSA ids matter for branches/returns in blocks reachable from b
    def cond_ids(self):
        if not hasattr(self, "_cond_ids"):
            self._cond_ids = self.live_ids(lambda i: ())
        return self._cond_ids

    def counters(self):
        """values that step through a loop, and what is computed from them"""
        users = {}
        for i in self.order:
            ops = [v for v, b in i.inc] if i.op == "phi" else i.ops
            for o in ops:
                if o[0] == "i":
                    users.setdefault(o[1], set()).add(i.id)

        def closure(k, through):
            out, todo = set(), [k]
            while todo:
                for u in users.get(todo.pop(), ()):
                    if u not in out and self.insts[u].op in through:
                        out.add(u)
                        todo.append(u)
            return out
        arith = ("add", "sub", "getelementptr", "zext", "sext", "trunc")
        out = set()
        for i in self.order:
            if i.op == "phi":
                r = closure(i.id, arith + ("phi",))
                if i.id in r and any(self.insts[k].op in ("add", "sub", "getelementptr") and i.id in closure(k, arith + ("phi",)) for k in r):
                    out.add(i.id)
        for k in list(out):
            out |= {u for u in closure(k, arith + ("load", "icmp", "and", "or", "xor", "mul", "shl", "select"))}
        return out

    def live_ids(self, used):
        """per block, ids that branches, returns and the operands used(inst) of later instructions depend on"""
        per = []
        for blk in self.blocks:
            s = set()
            t = blk[-1] if blk else None
            if t is not None:
                roots = [o for i in blk for o in used(i)]
                if t.cond:
                    roots.append(t.cond)
                if t.op == "ret":
                    roots += t.ops
                for r in roots:
                    if r[0] == "i":
                        s |= self.feeds(r[1])
            per.append(s)
        # live at block entry: used by a later branch before being computed again
        defs = [({i.id for i in blk if i.op == "phi"}, {i.id for i in blk if i.op != "phi"}) for blk in self.blocks]
        live = [per[b] - defs[b][1] for b in range(len(per))]
        preds = [[] for _ in per]
        for b, blk in enumerate(self.blocks):
            for t in (blk and blk[-1].succ) or ():
                preds[t].append(b)
        work = list(range(len(per)))
        while work:
            b = work.pop()
            out = live[b] - defs[b][0]
            phis = [i for i in self.blocks[b] if i.op == "phi" and i.id in live[b]]
            for q in preds[b]:
                n = set(out)
                for i in phis:
                    for val, src in i.inc:
                        if src == q and val[0] == "i":
                            n |= self.feeds(val[1])
                n -= defs[q][1]
                if not n <= live[q]:
                    live[q] = live[q] | n
                    work.append(q)
        return live


# Calls that only read through the given pointer arguments (None: all of them).
READONLY_ARGS = {
    "strcmp": None, "strlen": None, "memcmp": None, "strncmp": None, "syscall": None,
    "a0_writer_write": None, "a0_map_put": [1, 2], "a0_map_del": [1], "a0_map_has": [1], "a0_map_pop": [1],
    "a0_map_get": [1], "free": None,
    "a0_transport_empty_pred": None, "a0_transport_nonempty_pred": None, "a0_transport_has_next_pred": None,
    "a0_transport_timedwait": None, "a0_transport_wait": None, "a0_transport_allocator": [0],
    "a0_packet_serialize": None,
}


# --------------------------------------------------------------------------- path-sensitive reachability

class Ctx:
    """What is known at a point of the exploration."""
    __slots__ = ("fn", "env", "facts")

    def __init__(self, fn, env, facts):
        self.fn = fn
        self.env = env
        self.facts = facts

    def expr(self, v):
        return self.fn.expr(v, self.env)

    def shape(self, v):
        return self.fn.eshape(self.fn.expr(v, self.env))

    def truth(self, e):
        return truth(e, self.facts)

    def const(self, v):
        """constant value of operand v here, or None"""
        e = self.expr(v)
        if e[0] == "c":
            return e[1]
        for (a, t) in self.facts:
            if t and a[0] == "cmp" and a[1] == "eq" and a[2] == e and a[3][0] == "c":
                return a[3][1]
        return None

    def nonzero(self, v):
        """True / False / None: is operand v known (non)zero here"""
        e = self.expr(v)
        if e[0] == "c":
            return e[1] != 0
        t = truth(mk_cmp("eq", e, ("c", 0)), self.facts)
        return None if t is None else not t


def truth(e, facts):
    if e[0] == "c":
        return e[1] != 0
    if e[0] == "not":
        t = truth(e[1], facts)
        return None if t is None else not t
    if e[0] == "and" and is_bool(e):
        ts = [truth(x, facts) for x in e[1:]]
        if any(t is False for t in ts):
            return False
        return True if all(t is True for t in ts) else None
    if e[0] == "or" and is_bool(e):
        ts = [truth(x, facts) for x in e[1:]]
        if any(t is True for t in ts):
            return True
        return False if all(t is False for t in ts) else None
    if (e, True) in facts:
        return True
    if (e, False) in facts:
        return False
    if e[0] == "cmp" and e[1] == "eq":
        a, b = e[2], e[3]
        if b[0] == "c":
            for (f, t) in facts:
                if t and f[0] == "cmp" and f[1] == "eq" and f[2] == a and f[3][0] == "c":
                    return f[3][1] == b[1]
            # (x | y | ...) == 0  <=>  every part is 0
            if a[0] == "or" and b[1] == 0:
                ts = [truth(mk_cmp("eq", x, ("c", 0)), facts) for x in a[1:]]
                if any(t is False for t in ts):
                    return False
                if all(t is True for t in ts):
                    return True
    elif e[0] not in ("cmp",):
        # a raw value used as a condition: compare with the == 0 fact
        t = None
        if (mk_cmp("eq", e, ("c", 0)), True) in facts:
            t = False
        elif (mk_cmp("eq", e, ("c", 0)), False) in facts:
            t = True
        return t
    return None


def assume(e, val, acc):
    """Facts implied by expression e having truth value val (appended to acc). Returns False if absurd."""
    if e[0] == "c":
        return (e[1] != 0) == val
    if e[0] == "not":
        return assume(e[1], not val, acc)
    if e[0] == "and" and is_bool(e) and val:
        return all(assume(x, True, acc) for x in e[1:])
    if e[0] == "or" and is_bool(e) and not val:
        return all(assume(x, False, acc) for x in e[1:])
    if e[0] == "cmp" and e[1] == "eq" and e[3] == ("c", 0) and e[2][0] == "or":
        acc.append((e, val))
        if val:
            return all(assume(mk_cmp("eq", x, ("c", 0)), True, acc) for x in e[2][1:])
        return True
    if e[0] not in ("cmp", "and", "or"):
        acc.append((mk_cmp("eq", e, ("c", 0)), not val))
        return True
    acc.append((e, val))
    return True


class Assume:
    """returned by on_inst: continue in `state`, knowing the conditions (expression, truth value)"""
    __slots__ = ("state", "conds")

    def __init__(self, state, *conds):
        self.state = state
        self.conds = conds


def add_facts(facts, conds, acc=None):
    """facts extended by the conditions; None if they contradict what is known"""
    acc = [] if acc is None else acc
    for e, v in conds:
        tv = truth(e, facts)
        if tv is not None and tv != v:
            return None
        if not assume(e, v, acc):
            return None
    nf = set(facts)
    for f in acc:
        tv = truth(f[0], facts)
        if tv is not None and tv != f[1]:
            return None
        nf.add(f)
    return frozenset(nf)


class Explorer:
    """Fixpoint over (block, branch facts, automaton state).

    on_inst(state, inst, ctx) -> state | list of states | None (path ends)
    on_edge(state, facts_added, ctx, src_block, dst_block) -> state | None
    on_ret(state, inst, ctx)
    """

    found_any = staticmethod(lambda: False)

    def __init__(self, fn, on_inst=None, on_edge=None, on_ret=None, limit=200000, track=None, drop=frozenset()):
        self.fn = fn
        self.drop = drop  # ids no fact or value is kept about
        self.on_inst = on_inst
        self.on_edge = on_edge
        self.on_ret = on_ret
        self.limit = limit
        self.track = track  # extra ids whose facts are kept
        self.visited = {}
        self.into = {}
        self.cur = None
        self.blocks_seen = set()

    def _prune(self, b, env, facts):
        rel = self.fn.cond_ids()[b]
        if self.track:
            rel = rel | (self.track[b] if isinstance(self.track, list) else self.track)
        rel = rel - self.drop
        ne = {k: v for k, v in env.items() if k in rel}
        # what a live phi stands for is live
        more = set()
        for v in ne.values():
            if v[0] == "i":
                more |= self.fn.feeds(v[1])
        rel = rel | more
        nf = frozenset(f for f in facts if (not ids_in(f[0]) or ids_in(f[0]) & rel))
        if self.drop:
            nf = frozenset(f for f in nf if not ids_in(f[0]) & self.drop)
        return ne, nf

    def run(self, init):
        fn = self.fn
        defs = [set(i.id for i in blk) for blk in fn.blocks]
        inits = init if isinstance(init, list) else [init]
        assert None not in inits  # None ends a path
        work = []
        for s in inits:
            work.append((0, (), frozenset(), s, None))
        count = 0
        t0 = time.time()
        while work:
            b, envt, facts, st, par = work.pop()
            key = (b, envt, facts, st)
            if par is not None:
                self.into.setdefault(key, set()).add(par)
            if key in self.visited:
                continue
            count += 1
            if count > self.limit:
                raise AnalysisBroken("state limit exceeded in " + fn.name)
            if count % 500 == 0 and time.time() - t0 > 20 and Explorer.found_any():
                break  # the broken code makes for many more states; what was found is enough
            self.visited[key] = par
            self.cur = key
            self.blocks_seen.add(b)
            env = dict(envt)
            states = [(st, facts)]
            blk = fn.blocks[b]
            for i in blk:
                if i.op == "phi":
                    continue
                if self.on_inst:
                    nxt = []
                    for s, fs in states:
                        r = self.on_inst(s, i, Ctx(fn, env, fs))
                        if r is None:
                            continue
                        for x in r if isinstance(r, list) else [r]:
                            if isinstance(x, Assume):
                                f2 = add_facts(fs, x.conds)
                                if f2 is not None:
                                    nxt.append((x.state, f2))
                            else:
                                nxt.append((x, fs))
                    states = list(dict.fromkeys(nxt))
                    if not states:
                        break
            if not states:
                continue
            t = blk[-1]
            if t.op == "ret":
                if self.on_ret:
                    for s, fs in states:
                        self.on_ret(s, t, Ctx(fn, env, fs))
                continue
            if not t.succ:
                continue
            edges = []
            if t.op == "br" and t.cond is not None:
                ce = fn.expr(t.cond, env)
                edges = [(t.succ[0], [(ce, True)]), (t.succ[1], [(ce, False)])]
            elif t.op == "switch":
                ce = fn.expr(t.cond, env)
                cs = t.raw["cases"]
                edges = [(t.succ[0], [(mk_cmp("eq", ce, ("c", c)), False) for c in cs])]
                for c, s in zip(cs, t.succ[1:]):
                    edges.append((s, [(mk_cmp("eq", ce, ("c", c)), True)]))
            else:
                edges = [(s, []) for s in dict.fromkeys(t.succ)]
            for (dst, conds), (s, fs) in [(e, x) for e in edges for x in states]:
                acc = []
                nf = add_facts(fs, conds, acc)
                if nf is None:
                    continue
                # phi assignment
                nenv = dict(env)
                newphi = {}
                for i in fn.blocks[dst]:
                    if i.op != "phi":
                        break
                    for v, pb in i.inc:
                        if pb == b:
                            # resolve through the old environment
                            while v[0] == "i" and v[1] in env:
                                v = env[v[1]]
                            newphi[i.id] = v
                            break
                kill = defs[dst]
                nenv = {k: v for k, v in nenv.items() if k not in kill and not (v[0] == "i" and v[1] in kill)}
                carried = {}
                for k, v in newphi.items():
                    if v[0] == "i" and v[1] in kill:
                        # value about to be recomputed; keep what is known about it as facts on the phi
                        e = fn.expr(v, env)
                        z = truth(mk_cmp("eq", e, ("c", 0)), nf)
                        if z is not None:
                            carried[k] = z
                        continue
                    nenv[k] = v
                nf = {f for f in nf if not (ids_in(f[0]) & kill)}
                for k, z in carried.items():
                    nf.add((("cmp", "eq", ("phi", k), ("c", 0)), z))
                nenv, nfz = self._prune(dst, nenv, frozenset(nf))
                s2 = s
                if self.on_edge:
                    s2 = self.on_edge(s, acc, Ctx(fn, env, fs), b, dst)
                    if s2 is None:
                        continue
                work.append((dst, tuple(sorted(nenv.items())), nfz, s2, key))
        self.states = count
        return self

    def path(self, key=None):
        """Source lines of a path to the current state."""
        k = key or self.cur
        blocks = []
        while k is not None:
            blocks.append(k[0])
            k = self.visited.get(k)
        blocks.reverse()
        lines = []
        for b in blocks:
            for i in self.fn.blocks[b]:
                if i.loc and i.op in ("call", "br", "switch", "store", "ret", "invoke"):
                    f, l, s = i.loc[0]
                    t = "%s:%d" % (os.path.basename(f), l)
                    if not lines or lines[-1] != t:
                        lines.append(t)
        return lines


# --------------------------------------------------------------------------- slices

def slice_fn(fn, want):
    """The function restricted to the CFG edges that lie on some path to a return for which
    want(nonzero-ness of the returned value: True/False/None) holds; None if there is no such path."""
    good = set()

    def on_ret(s, i, ctx):
        z = ctx.nonzero(i.ops[0]) if i.ops else False
        if want(z):
            good.add(ex.cur)
    ex = Explorer(fn, on_ret=on_ret)
    ex.run(0)
    if not good:
        return None
    st = list(good)
    live = set(good)
    edges = set()
    while st:
        k = st.pop()
        for p in ex.into.get(k, ()):
            edges.add((p[0], k[0]))
            if p not in live:
                live.add(p)
                st.append(p)
    blocks = {k[0] for k in live}
    return restrict(fn, edges, blocks)


def restrict(fn, edges, blocks):
    d = dict(fn.raw)
    nb = []
    for b in d["blocks"]:
        b2 = {"id": b["id"], "insts": []}
        if b["id"] in blocks:
            for i in b["insts"]:
                i2 = i
                if i["op"] == "phi":
                    i2 = dict(i, ops=[x for x in i["ops"] if (x[1], b["id"]) in edges])
                elif i.get("succ"):
                    ok = [(b["id"], x) in edges for x in i["succ"]]
                    if not all(ok):
                        i2 = dict(i)
                        left = [x for x, o in zip(i["succ"], ok) if o]
                        if i["op"] == "switch":
                            if ok[0]:
                                i2["cases"] = [c for c, o in zip(i["cases"], ok[1:]) if o]
                                i2["succ"] = left
                            elif len(set(left)) == 1:
                                i2 = dict(i, op="br", succ=left[:1])
                                i2.pop("cond", None)
                            else:
                                # no default left: the last case takes its place
                                cs = [c for c, o in zip(i["cases"], ok[1:]) if o]
                                i2["succ"] = [left[-1]] + left[:-1]
                                i2["cases"] = cs[:-1]
                        else:
                            i2["succ"] = left
                            if len(set(left)) <= 1:
                                i2.pop("cond", None)
                b2["insts"].append(i2)
        nb.append(b2)
    d["blocks"] = nb
    return Fn(d, fn.view)
