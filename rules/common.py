"""Shared by all rules: obligations, violations, views."""
import collections
import re

from engine.ir import AnalysisBroken, Explorer, Program, mk_cmp, truth, slice_fn, Assume
from engine import gv
from engine.gv import G, C, ADD, AND, OR, NOT, CMP, SEL, mk, leaves, parts, show, nodes, subst, fold, tabulate, unsat, ZERO, ONE


class Violation:
    def __init__(self, rule, fn, where, msg, path=None):
        self.rule, self.fn, self.where, self.msg, self.path = rule, fn, where, msg, path

    def key(self):
        """identity for the known-findings file: no line numbers"""
        return "rule=%s fn=%s what=%s" % (self.rule, self.fn, re.sub(r"\s+", "_", re.sub(r":\d+", "", self.msg)))


class Check:
    def __init__(self, pid, prog):
        self.pid = pid
        self.prog = prog
        self.count = collections.Counter()
        self.viol = []
        self.functions = set()
        self.states = 0
        self.rows = 0
        self.rules = {}
        self._seen = set()

    def rule(self, name, text):
        """declare a rule; every declared rule must be applied at least once"""
        self.rules[name] = text

    def ok(self, rule, n=1):
        self.count[rule] += n

    def bad(self, rule, at, msg, path=None):
        self.count[rule] += 1
        fn, where = "?", str(at)
        if hasattr(at, "fn"):
            fn, where = at.fn.src_name, at.where()
        elif hasattr(at, "src_name"):
            fn, where = at.src_name, at.where()
        k = (rule, fn, where, msg)
        if k in self._seen:
            return
        self._seen.add(k)
        self.viol.append(Violation(rule, fn, where, msg, path))

    def expect(self, cond, rule, at, msg, path=None):
        if cond:
            self.ok(rule)
        else:
            self.bad(rule, at, msg, path)
        return cond

    def use(self, fn):
        self.functions.add(fn.name)
        return fn

    # -- tabulated implication: under `given`, `claim` holds, for every value of the leaves in dom
    def implies(self, rule, at, given, claim, dom, msg, names=None):
        bad = None
        live = claim is ONE
        # a leaf compared with a constant must be able to take it
        eqs = {}
        for n in list(nodes(given)) + list(nodes(claim)):
            if n.op == "cmp" and n.a[0] == "eq":
                for a, b in ((n.a[2], n.a[3]), (n.a[3], n.a[2])):
                    if b.op == "c" and a.op in ("call", "clob", "out", "ld", "arg", "lphi", "lmem"):
                        eqs.setdefault(a, set()).add(b.a[0])
        d0 = dom

        def dom(v):
            base = tuple(d0(v))
            return base + tuple(x for x in sorted(eqs.get(v, ())) if x not in base)
        for row, v in tabulate([given, claim], dom):
            self.rows += 1
            live = live or v[0]
            if v[0] and not v[1]:
                bad = row
                break
        if not live:
            raise AnalysisBroken("%s: no case satisfies the premise (%s)" % (rule, msg))
        if bad is None:
            self.ok(rule)
            return True
        vals = ", ".join("%s=%d" % (names(k) if names else show(k), v) for k, v in bad.items())
        self.bad(rule, at, msg, path="e.g. with " + vals)
        return False


def explore(c, fn, on_inst=None, init=None, on_ret=None, on_edge=None, track=None, limit=200000):
    e = Explorer(fn, on_inst=on_inst, on_ret=on_ret, on_edge=on_edge, track=track, limit=limit)
    return e


def run(c, e, init):
    e.run(init)
    c.states += e.states
    return e


def EQ(a, b, w=64):
    return CMP("eq", w, a, b)


def LT(a, b):
    return CMP("ult", 64, a, b)


def LE(a, b):
    return NOT(CMP("ult", 64, b, a))


def IMP(a, b):
    return OR(NOT(a), b)


def fptr_role(fn, i, env=None):
    """'struct.member' through which an indirect call goes"""
    e = fn.expr(i.fptr, env)
    r = role_of(fn, e)
    if r is None and i.fptr[0] == "i" and fn.insts[i.fptr[1]].op == "load":
        r = fn.field_of(fn.insts[i.fptr[1]])
    return r


def role_of(fn, e):
    if e[0] == "load":
        f = fn.field_of(fn.insts[e[1]])
        return f
    if e[0] == "arg":
        nm, t, full, off = fn.param_type(e[1])
        if full is not None:
            from engine.ir import type_path
            p, lt, rest = type_path(fn.view, full, off)
            return p[-1] if p else None
    if e[0] == "f":
        return "fn:" + e[1]
    if e[0] == "mem":
        p = fn.infer_path(e[2])
        return p[-1] if p else None
    return None


def is_indirect(i):
    return i.op in ("call", "invoke") and i.callee is None



def is_zero(fn, i):
    """the condition that instruction i's value is zero"""
    return mk_cmp("eq", fn.expr(("i", i.id)), ("c", 0))


def part(rule, names, text=""):
    """a rule function that applies another property's rule function and keeps only the named rules' findings"""
    def f(c):
        d = Check(c.pid, c.prog)
        d.tier = getattr(c, "tier", "quick")
        rule(d)
        for n in names:
            if n in d.rules:
                c.rules.setdefault(n, d.rules[n])
            c.count[n] += d.count[n]
        c.functions |= d.functions
        c.states += d.states
        c.rows += d.rows
        for v in d.viol:
            if v.rule in names and text in v.msg:
                c.viol.append(v)
    f.__name__ = rule.__name__
    f.__module__ = rule.__module__
    return f
