"""
Obligations: what a check decides, how verdicts are combined and reported.
"""

import ast
import contextlib
import json
import os
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction

from . import terms as t
from .terms import (T, C, NONE, TRUE, FALSE, ZERO, ONE, INF, raw, sym, ite, NOT, AND, OR, lam, inst, subst, truth,
                    eq, lt, isnone, item, length, seqmap, seqflat, cat, exists, fresh_var, is_bool, add, sub, mul,
                    mod, neg, implies, seqsum, dget, din, member, setof, idx)
from .program import Program, Fn, AnalysisBroken
from .interp import Interp, Frame
from . import model

PROVED, AGREES, REFUTED, UNKNOWN = "proved", "agrees", "refuted", "unknown"

RULES = {}


def rule(prop, title):
    def deco(f):
        RULES.setdefault(prop, []).append((title, f))
        return f

    return deco


class Result:
    def __init__(self, verdict, what, detail="", where=""):
        self.verdict = verdict
        self.what = what
        self.detail = detail
        self.where = where


class Timeout(Exception):
    pass


def short(x, n=400):
    s = str(x)
    return s if len(s) <= n else s[:n] + "...(%d more)" % (len(s) - n)


_prog = {}


def program():
    if "p" not in _prog:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            _prog["p"] = Program()
    return _prog["p"]


class Scn:
    """One abstract execution context, driven through the public interface."""

    def __init__(self, ck, prog=None):
        self.ck = ck
        self.groups = {}
        self.prog = prog or program()
        self.I = Interp(self.prog)
        t.LEN_EQ.clear()
        t.POINTS.clear()
        t.NUMS.clear()
        t.SET_FLIP[0] = False
        m = self.prog.module("zksk.base")
        self.I.frames.append(Frame(9999, Fn("<rule>", ast.parse("def f(): pass").body[0], m), m))
        ck.scenarios.append(self.I)

    # -- access to the program

    def K(self, name):
        return raw("cls", self.prog.cls(name).qual)

    def F(self, module, name):
        r = None
        if module in self.prog.modules:
            r = self.prog.resolve(name, self.prog.modules[module])
        if r is None:
            for m in self.prog.modules.values():
                r = self.prog.resolve(name, m)
                if r is not None:
                    break
        if r is None:
            raise AnalysisBroken("no %s in %s" % (name, module))
        return self.I.from_resolved(r, None)

    def new(self, cname, *args, **kw):
        return self.I.call(self.K(cname), list(args), dict(kw))

    def call(self, f, *args, **kw):
        return self.I.call(f, list(args), dict(kw))

    def m(self, obj, name, *args, **kw):
        return self.I.call_method(obj, name, *args, **kw)

    def get(self, obj, name):
        return self.I.getattr(obj, name)

    def set(self, obj, name, v):
        self.I.setattr(obj, name, v)

    def seq(self, v):
        return self.I.reify(self.I.seq(v))

    def run(self, src, **names):
        """Interpret statements of a caller of the library, in which the names denote the given values."""
        for k, v in names.items():
            self.I.st.s[("v", 9999, k)] = v
        for st in ast.parse(src).body:
            if self.I.st.pc is FALSE:
                break
            self.I.exec(st)

    def var(self, name):
        return self.I.st.s.get(("v", 9999, name))

    def items(self, v):
        """Elements of a list of known length."""
        x = self.I.seq(v)
        x = x.a[-1] if x.op in ("L", "D") else x
        if x.op != "lit":
            raise AnalysisBroken("list of unknown length: %s" % short(x, 100))
        return list(x.a)

    def r(self, v):
        return self.I.reify(v)

    @property
    def pc(self):
        return self.I.st.pc

    def list(self, *xs):
        return self.I.new_list(raw("lit", *xs))

    def dict(self, d=None):
        return self.I.new_dict(d)

    def sort(self, s, cname):
        self.I.sorts[("elem", s)] = self.prog.cls(cname)
        return s

    def typed(self, s, cname):
        self.I.sorts[s] = self.prog.cls(cname)
        return s

    def accept(self, res):
        return AND(self.I.st.pc, truth(self.r(res)))

    def mark(self):
        return len(self.I.events)

    def events(self, since=0, kind=None, name=None):
        return [e for e in self.I.events[since:] if (kind is None or e.kind == kind) and (name is None or e.name == name)]

    def alive(self):
        return self.I.st.pc is not FALSE

    def fork(self):
        """Run something and put the state back."""
        return _Fork(self)

    # -- builders of statements

    def secret(self, name, value=None):
        """A Secret with known or unknown value; distinct names are distinct secrets."""
        return self.new("Secret", value=NONE if value is None else value, name=C(name))

    def num(self, name):
        """A number (a Bn)."""
        x = sym(name)
        t.NUMS.add(x)
        return x

    def point(self, name, group="Grp"):
        """A point; points share a group unless told otherwise."""
        p = sym(name)
        t.POINTS.add(p)
        if group is not None:
            self.I.st.s[("fo", p, "group")] = sym(group)
            self.groups[p] = sym(group)
        return p

    def bilinear(self, g1="G1", g2="G2", gt="GT"):
        """Abstract points of these groups can be paired; the groups have the same order."""
        self.I.gt = sym(gt)
        self.I.same_order.update({sym(g2): sym(g1), sym(gt): sym(g1)})

    def term(self, *pairs):
        """Expression x*G + y*H + ... through the operators of the program."""
        e = None
        for s, b in pairs:
            x = self.I.binop(ast.Mult(), s, b, None)
            e = x if e is None else self.I.binop(ast.Add(), e, x, None)
        return e

    def dlrep(self, lhs, *pairs):
        return self.new("DLRep", lhs, self.term(*pairs))


class _Fork:
    def __init__(self, sc):
        self.sc = sc

    def __enter__(self):
        self.snap = (self.sc.I.st.copy(), len(self.sc.I.events))
        return self

    def __exit__(self, *a):
        self.sc.I.st = self.snap[0]


class Checker:
    """Collects the results of the obligations of one property."""

    def __init__(self, prop):
        self.prop = prop
        self.results = []
        self.scenarios = []
        self.rule = ""

    def add(self, verdict, what, detail="", where=""):
        self.results.append(Result(verdict, what, detail, where))
        return verdict

    def ok(self, what, detail=""):
        return self.add(PROVED, what, detail)

    def bad(self, what, detail="", where=""):
        return self.add(REFUTED, what, detail, where)

    def dunno(self, what, detail=""):
        return self.add(UNKNOWN, what, detail)

    @contextlib.contextmanager
    def part(self, what):
        """One instance of a rule; the others are decided even if it cannot be."""
        try:
            yield
        except Timeout:
            raise
        except AnalysisBroken as e:
            self.dunno("%s" % what, "not analysed: %s" % e)
        except (RecursionError, Exception) as e:
            if os.environ.get("ZKSA_DEBUG"):
                traceback.print_exc()
            self.dunno("%s" % what, "analysis failed: %s: %s" % (type(e).__name__, short(e, 200)))

    def scn(self):
        return Scn(self)

    # ---- comparisons

    def same(self, what, got, want, where="", vary=False, modq=False):
        """The terms denote the same value."""
        if got is want:
            return self.ok(what)
        if modq:
            g, w = t.strip_mod(got, _is_ord), t.strip_mod(want, _is_ord)
            if g is w:
                return self.ok(what)
            try:
                if zero_sum(sub(g, w)):
                    return self.ok(what)
            except RecursionError:
                pass
        d = model.differ(got, want, vary=vary, modq=modq)
        if d is True:
            return self.bad(what, "got %s, expected %s" % (short(got), short(want)), where)
        if d is False:
            return self.add(AGREES, what, "got %s, expected %s" % (short(got), short(want)))
        return self.dunno(what, "got %s, expected %s" % (short(got), short(want)))

    def different(self, what, a, b, where=""):
        """The terms can denote different values."""
        if a is b:
            return self.bad(what, "both are %s" % short(a), where)
        d = model.differ(a, b)
        if d is True:
            return self.ok(what)
        if d is False:
            return self.bad(what, "%s and %s always coincide" % (short(a), short(b)), where)
        return self.dunno(what, "%s / %s" % (short(a), short(b)))

    def holds(self, what, cond, detail="", where=""):
        """The condition is a tautology."""
        if cond is TRUE:
            return self.ok(what)
        if t.has_unknown(cond):
            return self.dunno(what, short(cond))
        d = model.differ(cond, TRUE, trials=60)
        if d is True or cond is FALSE:
            return self.bad(what, detail or "fails when %s" % short(NOT(cond)), where)
        return self.add(AGREES if d is False else UNKNOWN, what, short(cond))

    def implied(self, what, a, b, where="", detail=""):
        """Whenever a holds, b holds."""
        v, p = entail(a, b)
        if v in (PROVED, AGREES):
            return self.add(v, what)
        if v is UNKNOWN:
            return self.dunno(what, "%s => %s" % (short(a), short(b)))
        return self.bad(what, (detail + ": " if detail else "") + "accepted although " + short(NOT(b), 200) + ", when " + show_path(p), where)

    def at(self, *names):
        """file:line of the named methods, as far as they exist."""
        out = []
        prog = program()
        for n in names:
            c, _, m = n.partition(".")
            try:
                if m and prog.has_cls(c):
                    f = prog.lookup(prog.cls(c), m)
                    if isinstance(f, Fn):
                        out.append("%s (%s)" % (f.where, f.qual))
                        continue
                if prog.has_cls(c):
                    out.append("%s (%s)" % (prog.cls(c).where, n))
                elif not m:
                    f = prog.fn(c)
                    if isinstance(f, Fn):
                        out.append("%s (%s)" % (f.where, f.qual))
            except AnalysisBroken:
                continue
        return ", ".join(out)

    def satisfiable(self, what, c, where=""):
        if c is FALSE:
            return self.bad(what, "never happens", where)
        return self.ok(what)


def point_norm(sc, x):
    """Scalars of a point act modulo the order of its group."""
    memo = {}
    grp = sc.groups

    def ordof(p):
        g = grp.get(p)
        if g is None:
            if p.op in ("h2p", "gen"):
                g = p.a[0]
            elif p.op == "pair" and sc.I.gt is not None:
                g = sc.I.gt
        if g is not None:
            return raw("ord", sc.I.same_order.get(g, g))
        return None

    def poly(x):
        out = ZERO
        for c, m in t.monomials(x):
            ps = [y for y in m if t.is_point(y) and ordof(y) is not None]
            if len(ps) == 1:
                o = ordof(ps[0])
                k = C(c)
                for y in m:
                    while y.op == "mod" and y.a[1] is o:
                        y = y.a[0]
                    k = mul(k, y)
            else:
                k = C(c)
                for y in m:
                    k = mul(k, y)
            out = add(out, k)
        return out

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "lam":
            v = fresh_var()
            r = lam(v, go(inst(x, v)))
        elif any(isinstance(y, T) for y in x.a):
            new = tuple(go(y) if isinstance(y, T) else y for y in x.a)
            r = x if all(p is q for p, q in zip(new, x.a)) else t.rebuild(x, new)
            for _ in range(6):
                if r.op != "poly":
                    break
                r2 = poly(r)
                if r2 is r:
                    break
                r = r2
        else:
            r = x
        memo[x] = r
        return r

    return go(x)


def zero_sum(d):
    """d is zero after moving coefficients into sums over the same range and adding the bodies."""
    if d.op == "ite":
        return all(zero_sum(x) for _, x in t.leaves(d))
    groups = {}
    rest = ZERO
    for c, m in t.monomials(d):
        ss = [x for x in m if x.op == "sum"]
        if len(ss) == 1:
            s = ss[0]
            k = C(c)
            for x in m:
                if x is not s:
                    k = mul(k, x)
            groups.setdefault(s.a[0], []).append((k, s.a[1]))
        else:
            k = C(c)
            for x in m:
                k = mul(k, x)
            rest = add(rest, k)
    for n, parts in groups.items():
        v = fresh_var()
        tot = ZERO
        for k, l in parts:
            tot = add(tot, mul(k, inst(l, v)))
        if tot is not ZERO:
            return False
    return rest is ZERO or rest is INF


# ---------------------------------------------------------------------------------------------
# calls on opaque objects


def strip_occ(x):
    """Forget which of several identical calls a result comes from, and copies."""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "lam":
            v = fresh_var()
            r = lam(v, go(inst(x, v)))
        elif x.op == "copy":
            r = go(x.a[0])
        elif x.op == "mcall":
            a = list(x.a)
            for i, y in enumerate(a):
                if isinstance(y, T) and y.op == "c" and y.a[0] == "str" and y.a[1].startswith("#") and i >= 2:
                    a = a[:i]
                    break
            r = raw("mcall", *[go(y) if isinstance(y, T) else y for y in a])
        elif any(isinstance(y, T) for y in x.a):
            new = tuple(go(y) if isinstance(y, T) else y for y in x.a)
            r = x if all(p is q for p, q in zip(new, x.a)) else t.rebuild(x, new)
        else:
            r = x
        memo[x] = r
        return r

    return go(x)


def is_call(x, name):
    return isinstance(x, T) and x.op == "mcall" and x.a[1] == name


def call_args(x):
    """Positional arguments of an opaque call."""
    out = []
    for y in x.a[2:]:
        if isinstance(y, T) and y.op == "c" and y.a[0] == "str" and y.a[1].startswith("#"):
            break
        if isinstance(y, T) and y.op == "kw":
            out.append(y.a[1])
        else:
            out.append(y)
    return out


# ---------------------------------------------------------------------------------------------
# entailment


def _is_ord(m):
    return m.op == "ord"


def _order_free(x):
    """Reductions modulo the order of a group dropped: as exponents the values act alike."""
    return t.strip_mod(x, _is_ord)


class _Span:
    """Rational span of polynomials over their monomials."""

    def __init__(self):
        self.rows = []  # (pivot, {mono: Fraction})

    def _vec(self, d):
        v = {}
        for c, m in t.monomials(d):
            m = tuple(m)
            v[m] = v.get(m, Fraction(0)) + c
        return {m: c for m, c in v.items() if c}

    def reduce(self, d):
        v = self._vec(d)
        for p, r in self.rows:
            c = v.get(p)
            if c:
                for m, k in r.items():
                    v[m] = v.get(m, Fraction(0)) - c * k
        return {m: c for m, c in v.items() if c}

    def add(self, d):
        v = self.reduce(d)
        if not v:
            return
        p = min(v, key=lambda m: tuple(x.id for x in m))
        k = v[p]
        v = {m: c / k for m, c in v.items()}
        new = []
        for q, r in self.rows:
            c = r.get(p)
            if c:
                r = dict(r)
                for m, x in v.items():
                    r[m] = r.get(m, Fraction(0)) - c * x
                r = {m: x for m, x in r.items() if x}
            new.append((q, r))
        self.rows = new + [(p, v)]


def paths(c, limit=400):
    """Satisfying paths of a decision diagram."""
    out = []

    def go(x, lits):
        if len(out) >= limit or x is FALSE:
            return
        if x.op != "ite":
            out.append(lits)
            return
        go(x.a[1], lits + [(x.a[0], True)])
        go(x.a[2], lits + [(x.a[0], False)])

    go(c, [])
    return out


def _linear_form(at):
    """The polynomial an equality atom sets to zero, and the modulus, if any."""
    if at.op == "eq0":
        d = _order_free(at.a[0])
        if d.op == "mod":
            return d.a[0], d.a[1]
        return d, None
    if at.op == "eq":
        x, y = at.a
        if any(z.op in ("lit", "L", "D", "c", "str", "digest", "enc") for z in (x, y)):
            return None, None
        return sub(x, y), None
    return None, None


def contradicts(lits):
    """The literals cannot hold together, by linear reasoning over the equalities."""
    spans = {}
    for at, v in lits:
        if v:
            d, m = _linear_form(at)
            if d is not None:
                for k in {m, None} if m is None else {m}:
                    spans.setdefault(k, _Span()).add(d)
                if m is None:
                    spans.setdefault(None, _Span())
    base = [d for at, v in lits if v for d, m in [_linear_form(at)] if d is not None and m is None]
    for k in spans:
        if k is not None:
            for d in base:
                spans[k].add(d)
    for at, v in lits:
        d, m = _linear_form(at)
        if d is None or v:
            continue
        s = spans.get(m) or spans.get(None)
        if s is not None:
            r = s.reduce(d)
            if not r or m is not None and t.is_int(m) and all(c.denominator == 1 and c.numerator % m.a[1] == 0 for c in r.values()):
                return True
    return False


def entail(a, b, fingerprints=True):
    """
    Does condition a entail condition b?  (verdict, counterexample path).

    Decided on the decision diagrams; atoms that differ in notation only are identified by random
    interpretation, equalities combine linearly.
    """
    if implies(a, b):
        return PROVED, None
    gap = AND(a, NOT(b))
    if fingerprints:
        aa, bb = t._all_atoms(a), t._all_atoms(b)
        ren = {}
        for y in bb - aa:
            for x in aa - bb:
                if x.op == y.op or {x.op, y.op} <= {"eq", "eq0"}:
                    px, py = raw("ite", x, TRUE, FALSE), raw("ite", y, TRUE, FALSE)
                    if _same_atom(x, y):
                        ren[y] = x
                        break
        if ren:
            for y, x in ren.items():
                b = OR(AND(restrict(b, y, True), raw("ite", x, TRUE, FALSE)),
                       AND(restrict(b, y, False), NOT(raw("ite", x, TRUE, FALSE))))
            if implies(a, b):
                return AGREES, None
            gap = AND(a, NOT(b))
    ps = paths(gap)
    live = [p for p in ps if not contradicts(p)]
    if not live:
        return (PROVED if len(ps) < 400 else UNKNOWN), None
    clean = [p for p in live if not any(t.has_unknown(at) for at, _ in p)]
    if clean:
        return REFUTED, clean[0]
    return UNKNOWN, live[0]


def _same_atom(x, y):
    """Atoms with the same meaning in all interpretations tried."""
    if x.op == "eq0" and y.op == "eq0":
        dx, dy = _order_free(x.a[0]), _order_free(y.a[0])
        return model.differ(dx, dy, trials=6) is False or model.differ(dx, neg(dy), trials=6) is False
    if x.op == y.op and len(x.a) == len(y.a) and all(isinstance(z, T) for z in x.a + y.a):
        if all(model.differ(p, q, trials=6) is False for p, q in zip(x.a, y.a)):
            return True
        return x.op == "eq" and all(model.differ(p, q, trials=6) is False for p, q in zip(x.a, y.a[::-1]))
    return False


def show_path(p, n=6):
    lits = [("" if v else "not ") + short(at, 120) for at, v in p]
    return "; ".join(lits[:n]) + (" ..." if len(lits) > n else "")


def run(prop, tier):
    import importlib

    for m in ("linear", "userprims", "protocol", "identity", "secrecy", "simulation", "primitives", "pairing", "history", "values", "failures", "helpers"):
        try:
            importlib.import_module("zksa.rules." + m)
        except ModuleNotFoundError as e:
            if "zksa.rules" not in str(e):
                raise
    ck = Checker(prop)
    ck.tier = tier
    per_rule = []
    start = time.time()
    try:
        import resource

        # a rule that would need more than this is undecided, the rest of the check is not lost with it
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except (ImportError, ValueError, OSError):
        pass
    for title, f in RULES.get(prop, []):
        ck.rule = title
        n0 = len(ck.results)
        t0 = time.time()

        def alarm(*a):
            raise Timeout()

        old = signal.signal(signal.SIGALRM, alarm)
        signal.alarm(max(5, min(100 if tier == "quick" else 250, int(600 - (time.time() - start)))))
        try:
            f(ck)
        except Timeout:
            ck.dunno(title, "time limit of the analysis")
        except AnalysisBroken as e:
            ck.dunno(title, "anchor not found: %s" % e)
        except Exception as e:
            if os.environ.get("ZKSA_DEBUG"):
                traceback.print_exc()
            ck.dunno(title, "analysis failed: %s: %s" % (type(e).__name__, short(e, 200)))
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        for r in ck.results[n0:]:
            r.rule = title
        per_rule.append((title, len(ck.results) - n0, round(time.time() - t0, 2)))
    return ck, per_rule
