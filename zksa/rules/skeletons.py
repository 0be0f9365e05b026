"""
Statement skeletons: literal trees over symbolic points, secrets and challenges, with their specification.

A skeleton builds the same statement for the prover (secret values known) and independently for the
verifier (values unknown). In parallel it builds a description of the tree, from which the rules derive what
an adversarial proof looks like and which conditions its acceptance has to imply.
"""

import random

from .common import *


class World:
    """Symbols shared by the prover's and the verifier's copy of a statement."""

    def __init__(self, sc):
        self.sc = sc
        self.vals = {}
        self.pts = {}
        self.uid = 0

    def v(self, name):
        if name not in self.vals:
            self.vals[name] = self.sc.num(name + "_v")
        return self.vals[name]

    def p(self, name, group="Grp"):
        if name not in self.pts:
            self.pts[name] = self.sc.point(name, group)
        return self.pts[name]

    def fresh(self, name):
        self.uid += 1
        return "%s%d" % (name, self.uid)


class Node:
    """
    A statement (obj: the abstract object) and its specification.

    kind: dl (lhs, terms [(secret, base)]), and / or (subs), ext (subs[0]: inner statement given the
    precommitment, pre: precommitment of an adversary, checks: [(label, condition)]).
    """

    def __init__(self, w, kind, obj, lhs=None, terms=None, subs=None, pre=None, checks=(), cls=None):
        self.w, self.kind, self.obj, self.lhs, self.terms = w, kind, obj, lhs, terms
        self.subs, self.pre_, self.checks, self.cls = subs, pre, checks, cls
        if obj is not None and getattr(w, "marked", False):
            w.sc.m(obj, "set_simulated")

    def has_pre(self):
        return self.kind == "ext" or self.kind in ("and", "or") and any(s.has_pre() for s in self.subs)

    def pre(self):
        """Precommitment of an adversary."""
        if self.kind == "ext":
            return self.pre_
        if not self.has_pre():
            return NONE
        return self.w.sc.list(*[s.pre() for s in self.subs])

    def respond(self, path="z"):
        """Responses of an adversary: sets self.z, returns the term handed to the verifier."""
        sc = self.w.sc
        if self.kind == "dl":
            self.z = [sc.num("%s_%d" % (path, i)) for i in range(len(self.terms))]
            return sc.list(*self.z)
        if self.kind == "and":
            return sc.list(*[s.respond("%s_%d" % (path, i)) for i, s in enumerate(self.subs)])
        if self.kind == "or":
            self.ch = [sc.num("%s_c%d" % (path, i)) for i in range(len(self.subs))]
            r = [s.respond("%s_%d" % (path, i)) for i, s in enumerate(self.subs)]
            return raw("lit", sc.list(*self.ch), sc.list(*r))
        return self.subs[0].respond(path)

    def recompute(self, c):
        """Commitment as function of challenge and responses."""
        if self.kind == "dl":
            r = neg(mul(c, self.lhs))
            for z, (_, b) in zip(self.z, self.terms):
                r = add(r, mul(z, b))
            return r
        if self.kind == "and":
            return raw("L", raw("lit", *[s.recompute(c) for s in self.subs]))
        if self.kind == "or":
            return raw("L", raw("lit", *[s.recompute(k) for s, k in zip(self.subs, self.ch)]))
        return self.subs[0].recompute(c)

    def commitment(self, path="com"):
        """Commitment sent by an adversary: shaped like the recomputed one."""
        if self.kind == "dl":
            r = sym(path)
            t.POINTS.add(r)
            return r
        if self.kind in ("and", "or"):
            return self.w.sc.list(*[s.commitment("%s_%d" % (path, i)) for i, s in enumerate(self.subs)])
        return self.subs[0].commitment(path)

    def recomputed(self, c):
        """[(path, point)]: the recomputed commitments of the leaves."""
        if self.kind == "dl":
            return [self.recompute(c)]
        if self.kind == "or":
            return [x for s, k in zip(self.subs, self.ch) for x in s.recomputed(k)]
        return [x for s in self.subs for x in s.recomputed(c)]

    def consistency(self, seen=None):
        """Equations between responses of recurring secrets."""
        seen = {} if seen is None else seen
        out = []
        if self.kind == "dl":
            for z, (s, _) in zip(self.z, self.terms):
                if s in seen:
                    out.append(("secret %s" % s, eq(seen[s], z)))
                else:
                    seen[s] = z
        elif self.kind == "or":
            for s in self.subs:
                out += s.consistency({})
        else:
            for s in self.subs:
                out += s.consistency(seen)
        return out

    def or_conditions(self, c):
        """[(label, condition)] on the subchallenges."""
        out = []
        two = C(2 ** 128)
        if self.kind == "or":
            tot = ZERO
            for i, k in enumerate(self.ch):
                out.append(("subchallenge %d is in [0, 2^128)" % i, AND(NOT(lt(k, ZERO)), lt(k, two))))
                tot = add(tot, k)
            out.append(("subchallenges sum to the challenge", eq(mod(sub(tot, c), two), ZERO)))
            for s, k in zip(self.subs, self.ch):
                out += s.or_conditions(k)
        elif self.kind != "dl":
            for s in self.subs:
                out += s.or_conditions(c)
        return out

    def validations(self):
        out = list(self.checks)
        for s in self.subs or ():
            out += s.validations()
        return out

    def nodes(self):
        yield self
        for s in self.subs or ():
            yield from s.nodes()


class Side:
    """One party's view: builds secrets with or without values."""

    def __init__(self, w, known, tag=""):
        self.w = w
        self.sc = w.sc
        self.known = known
        self.secrets = {}
        self.lies = False

    def name(self):
        self.count += 1
        return "s%d" % self.count

    def w_lhs(self):
        self.count += 1
        return "y%d" % self.count

    def s(self, name, known=None):
        if name not in self.secrets:
            k = self.known if known is None else (known and self.known)
            self.secrets[name] = self.sc.secret(name, self.w.v(name) if k else None)
        return self.secrets[name]

    def p(self, name, group="Grp"):
        return self.w.p(name, group)

    def dl(self, *pairs, lhs=None, known=None):
        """y = sum x_i g_i; true unless lhs names another point."""
        y = ZERO
        bases = [self.p(*g) if isinstance(g, tuple) else self.p(g) for _, g in pairs]
        for (x, _), g in zip(pairs, bases):
            y = add(y, mul(self.w.v(x), g))
        if lhs is not None:
            y = self.p(lhs)
        elif not self.known:
            pass
        o = self.sc.dlrep(y, *[(self.s(x, known), g) for (x, _), g in zip(pairs, bases)])
        return Node(self.w, "dl", o, lhs=y, terms=[(x, g) for (x, _), g in zip(pairs, bases)], cls="DLRep")

    def dlu(self, lhs, *pairs):
        """Representation with unknown secrets."""
        return self.dl(*pairs, lhs=lhs, known=False)

    def all(self, *xs):
        return Node(self.w, "and", self.sc.new("AndProofStmt", *[x.obj for x in xs]), subs=xs, cls="AndProofStmt")

    def any(self, *xs):
        return Node(self.w, "or", self.sc.new("OrProofStmt", *[x.obj for x in xs]), subs=xs, cls="OrProofStmt")

    def conj(self, a, b):
        """a & b"""
        return flat(self.w, "and", [a, b], self.sc.I.binop(ast.BitAnd(), a.obj, b.obj, None))

    def disj(self, a, b):
        """a | b"""
        return flat(self.w, "or", [a, b], self.sc.I.binop(ast.BitOr(), a.obj, b.obj, None))

    def dl_spec(self, lhs, *terms):
        return Node(self.w, "dl", None, lhs=lhs, terms=list(terms))

    def neq(self, x, g, h, y1, bind, known=None, lhs=None):
        sc, w = self.sc, self.w
        g, h, y1 = (self.p(*x) if isinstance(x, tuple) else self.p(x) for x in (g, h, y1))
        y0 = mul(w.v(x), g) if lhs is None else self.p(lhs)
        o = sc.new("DLNotEqual", sc.list(y0, g), sc.list(y1, h), self.s(x, known), bind=C(bind))
        k = w.fresh("neq")
        pc = w.p("P" + k)
        parts = [self.dl_spec(INF, (k + "a", g), (k + "b", y0)), self.dl_spec(pc, (k + "a", h), (k + "b", y1))]
        if bind:
            parts.append(self.dl_spec(y0, (x, g)))
        inner = Node(w, "and", None, subs=parts)
        return Node(w, "ext", o, subs=[inner], pre=pc, cls="DLNotEqual",
                    checks=[("the precommitment of the inequality is not neutral", NOT(eq(pc, INF)))])

    def range2(self, n, x="x", r="r", bits=None, known=None):
        """PowerTwoRangeStmt with n bits; bits fixes the value (a number)."""
        sc, w = self.sc, self.w
        g, h = self.p("g"), self.p("h")
        xv = C(bits) if bits is not None else w.v(x)
        com = add(mul(xv, g), mul(w.v(r), h))
        if x not in self.secrets:
            k = self.known if known is None else (known and self.known)
            self.secrets[x] = sc.secret(x, xv if k else None)
        o = sc.new("PowerTwoRangeStmt", com, g, h, C(n), self.s(x), self.s(r, known))
        return self.range_node(o, com, g, h, n)

    def range_node(self, o, com, g, h, n):
        sc, w = self.sc, self.w
        k = w.fresh("rg")
        cs = [w.p("C%s_%d" % (k, i)) for i in range(n)]
        rand = sc.num("rand" + k)
        pre = sc.dict()
        sc.I.setitem(pre, C("Cs"), sc.list(*cs), None)
        sc.I.setitem(pre, C("rand"), rand, None)
        ors = [Node(w, "or", None, subs=[self.dl_spec(c, ("%s_%d" % (k, i), h)),
                                         self.dl_spec(sub(c, g), ("%s_%d" % (k, i), h))]) for i, c in enumerate(cs)]
        inner = Node(w, "and", None, subs=ors) if n > 1 else ors[0]
        tot = ZERO
        for i, c in enumerate(cs):
            tot = add(tot, mul(C(2 ** i), c))
        chk = eq(tot, add(com, mul(rand, h)))
        node = Node(w, "ext", o, subs=[inner], pre=pre, cls="PowerTwoRangeStmt",
                    checks=[("the bit commitments combine to the commitment", chk)])
        node.bits = n
        return node

    def range(self, a, b, x="x", r="r", value=None, known=None):
        """RangeStmt(com, g, h, a, b, x, r)."""
        sc, w = self.sc, self.w
        g, h = self.p("g"), self.p("h")
        xv = C(value) if value is not None else w.v(x)
        com = add(mul(xv, g), mul(w.v(r), h))
        if x not in self.secrets:
            k = self.known if known is None else (known and self.known)
            self.secrets[x] = sc.secret(x, xv if k else None)
        mk = sc.F("zksk.primitives.rangeproof", "RangeStmt")
        o = sc.call(mk, com, g, h, C(a), C(b), self.s(x), self.s(r, known))
        n = max(1, (b - a - 1).bit_length())
        off = 2 ** n - (b - a)
        c1 = sub(com, mul(C(a), g))
        c2 = add(c1, mul(C(off), g))
        subs = [self.dl_spec(com, (x, g), (r, h)), self.range_node(None, c1, g, h, n), self.range_node(None, c2, g, h, n)]
        return Node(w, "and", o, subs=subs, cls="RangeStmt")


    def bbs_key(self, n, valid=None):
        """Public key with n+2 generators; valid: (A, e, s, messages), a signature it verifies."""
        sc, w = self.sc, self.w
        sc.bilinear()
        h0, gamma = w.p("h0", "G2"), w.v("gamma")
        gens = [w.p("b%d" % i, "G1") for i in range(n + 2)]
        if valid is not None:
            A, e, sv, ms = valid
            g0 = sub(mul(add(gamma, e), A), mul(sv, gens[1]))
            for m, g in zip(ms, gens[2:]):
                g0 = sub(g0, mul(m, g))
            gens[0] = g0
        # There may be any number of other keys in the same process.
        sc.new("BBSPlusPublicKey", w=w.p("w_other", "G2"), h0=w.p("h0_other", "G2"), generators=sc.list(*[w.p("other%d" % i, "G1") for i in range(n + 2)]))
        return sc.new("BBSPlusPublicKey", w=mul(gamma, h0), h0=h0, generators=sc.list(*gens)), gens, h0, mul(gamma, h0)

    def bbs(self, msgs, binding=True, extra=0, valid=True, known=None, es=("e", "s")):
        """BBSPlusSignatureStmt over messages (names of secrets); the signature is valid on the prover's side if asked for."""
        sc, w = self.sc, self.w
        k = w.fresh("bbs")
        A = w.p("A_" + es[0], "G1")
        ev, sv = w.v(es[0]), w.v(es[1])
        pk, gens, h0, wp = self.bbs_key(len(msgs) + extra, (A, ev, sv, [w.v(m) for m in msgs]) if valid else None)
        has = self.known if known is None else (known and self.known)
        sig = [sc.new("BBSPlusSignature", A=A, e=ev, s=sv)] if has else []
        ms = [self.s(m, known) for m in msgs]
        if binding:
            for x in es:
                if x not in self.secrets:
                    self.secrets[x] = sc.secret(x)
            st = sc.new("BBSPlusSignatureStmt", sc.list(*[self.secrets[x] for x in es], *ms), pk, *sig)
            e, s = es
        else:
            st = sc.new("BBSPlusSignatureStmt", sc.list(*ms), pk, *sig, binding=C(False))
            e, s = k + "e", k + "s"
        a1, a2 = w.p("A1" + k, "G1"), w.p("A2" + k, "G1")
        pre = sc.dict()
        sc.I.setitem(pre, C("A1"), a1, None)
        sc.I.setitem(pre, C("A2"), a2, None)
        r1, r2, d1, d2 = (k + x for x in ("r1", "r2", "d1", "d2"))
        pr = t.pair
        parts = [self.dl_spec(a1, (r1, gens[1]), (r2, gens[2])),
                 self.dl_spec(INF, (d1, gens[1]), (d2, gens[2]), (e, neg(a1))),
                 self.dl_spec(sub(pr(a2, wp), pr(gens[0], h0)), (e, neg(pr(a2, h0))), (r1, pr(gens[2], wp)), (d1, pr(gens[2], h0)),
                              (s, pr(gens[1], h0)), *[(m, pr(g, h0)) for m, g in zip(msgs, gens[2:])])]
        return Node(w, "ext", st, subs=[Node(w, "and", None, subs=parts)], pre=pre, cls="BBSPlusSignatureStmt")


def flat(w, kind, xs, obj):
    """Node of a statement built with operators: nested nodes of the same kind are merged."""
    subs = []
    for x in xs:
        subs += x.subs if x.kind == kind else [x]
    return Node(w, kind, obj, subs=subs, cls="AndProofStmt" if kind == "and" else "OrProofStmt")


SKELETONS = {}


def skel(name, **opts):
    def deco(f):
        SKELETONS[name] = (f, opts)
        return f

    return deco


@skel("x*g")
def _(s):
    return s.dl(("x", "g"))


@skel("x*g + z*h")
def _(s):
    return s.dl(("x", "g"), ("z", "h"))


@skel("x*g + z*h + x*k")
def _(s):
    return s.dl(("x", "g"), ("z", "h"), ("x", "k"))


@skel("x*g & z*h")
def _(s):
    return s.all(s.dl(("x", "g")), s.dl(("z", "h")))


@skel("x*g + z*h & x*k & z*g")
def _(s):
    return s.all(s.dl(("x", "g"), ("z", "h")), s.dl(("x", "k")), s.dl(("z", "g")))


@skel("x*g | z*h", choices=2)
def _(s):
    return s.any(s.dl(("x", "g")), s.dl(("z", "h")))


@skel("x*g | x*h | x*k", choices=3)
def _(s):
    return s.any(s.dl(("x", "g")), s.dl(("x", "h")), s.dl(("x", "k"), ("z", "h")))


@skel("?u*g | z*h", choices=2)
def _(s):
    return s.any(s.dlu("y", ("u", "g")), s.dl(("z", "h")))


@skel("z*h | ?u*g + w*k", choices=2)
def _(s):
    return s.any(s.dl(("z", "h")), s.dlu("y", ("u", "g"), ("w", "k")))


@skel("?u*g | z*h | ?w*k", choices=3)
def _(s):
    return s.any(s.dlu("y", ("u", "g")), s.dl(("z", "h")), s.dlu("y2", ("w", "k")))


@skel("(x*g & x*h) | z*k", choices=2)
def _(s):
    return s.any(s.all(s.dl(("x", "g")), s.dl(("x", "h"))), s.dl(("z", "k")))


@skel("(?u*g & x*h) | z*k", choices=2)
def _(s):
    return s.any(s.all(s.dlu("y", ("u", "g")), s.dl(("x", "h"))), s.dl(("z", "k")))


@skel("x*g & (z*h | ?u*k)", choices=2)
def _(s):
    return s.all(s.dl(("x", "g")), s.any(s.dl(("z", "h")), s.dlu("y", ("u", "k"))))


@skel("(x*g | ?u*k) & (z*h | w*k) & v*g", choices=2, heavy=True)
def _(s):
    return s.all(s.any(s.dl(("x", "g")), s.dlu("y", ("u", "k"))), s.any(s.dl(("z", "h")), s.dl(("w", "k"))), s.dl(("v", "g")))


@skel("(x*g | ?u*k) | z*h", choices=2)
def _(s):
    return s.any(s.any(s.dl(("x", "g")), s.dlu("y", ("u", "k"))), s.dl(("z", "h")))


@skel("((x*g | ?u*k) & z*h) | w*h", choices=2)
def _(s):
    return s.any(s.all(s.any(s.dl(("x", "g")), s.dlu("y", ("u", "k"))), s.dl(("z", "h"))), s.dl(("w", "h")))


@skel("(x*g & z*h) & (x*h & z*g + x*k)")
def _(s):
    return s.all(s.all(s.dl(("x", "g")), s.dl(("z", "h"))), s.all(s.dl(("x", "h")), s.dl(("z", "g"), ("x", "k"))))


@skel("neq")
def _(s):
    return s.neq("x", "g", "h", "Y", False)


@skel("neq bind")
def _(s):
    return s.neq("x", "g", "h", "Y", True)


@skel("neq bind & x*k")
def _(s):
    return s.all(s.neq("x", "g", "h", "Y", True), s.dl(("x", "k")))


@skel("x*k & neq bind & neq")
def _(s):
    return s.all(s.dl(("x", "k")), s.neq("x", "g", "h", "Y", True), s.neq("x", "g", "k", "Y2", False))


@skel("neq | z*k", choices=2)
def _(s):
    return s.any(s.neq("x", "g", "h", "Y", False), s.dl(("z", "k")))


@skel("z*k | (neq bind & x*h)", choices=2)
def _(s):
    return s.any(s.dl(("z", "k")), s.all(s.neq("x", "g", "h", "Y", True), s.dl(("x", "h"))))


@skel("neq | neq bind", choices=2)
def _(s):
    return s.any(s.neq("x", "g", "h", "Y", False), s.neq("z", "g", "k", "Y2", True))


@skel("z*k | neq bind | neq", choices=3)
def _(s):
    return s.any(s.dl(("z", "k")), s.neq("x", "g", "h", "Y", True), s.neq("w", "g", "k", "Y2", False))


@skel("neq & neq & neq bind")
def _(s):
    return s.all(s.neq("x", "g", "h", "Y", False), s.neq("z", "g", "k", "Y2", False), s.neq("w", "g", "k", "Y2", True))


@skel("range 1 bit")
def _(s):
    return s.range2(1, bits=1)


@skel("range 2 bits")
def _(s):
    return s.range2(2, bits=2)


@skel("range 3 bits & z*k")
def _(s):
    return s.all(s.range2(3, bits=3), s.dl(("z", "k")))


@skel("range 2 bits | z*k", choices=2)
def _(s):
    return s.any(s.range2(2, bits=1), s.dl(("z", "k")))


@skel("range [2,5)", heavy=True)
def _(s):
    return s.range(2, 5, value=3)


@skel("x*g x*h x*k z*g (four parts)")
def _(s):
    return s.all(s.dl(("x", "g")), s.dl(("x", "h")), s.dl(("x", "k"), ("v", "h")), s.dl(("z", "g"), ("x", "h")))


@skel("x*g | z*h | w*k | ?u*g", choices=3)
def _(s):
    return s.any(s.dl(("x", "g")), s.dl(("z", "h")), s.dl(("w", "k")), s.dlu("y", ("u", "g")))


@skel("operators: x*g & z*h & w*k")
def _(s):
    return s.conj(s.conj(s.dl(("x", "g")), s.dl(("z", "h"))), s.dl(("w", "k"), ("x", "h")))


@skel("operators: x*g & (z*h & x*k)")
def _(s):
    return s.conj(s.dl(("x", "g")), s.conj(s.dl(("z", "h")), s.dl(("x", "k"))))


@skel("operators: (x*g & z*h) & (x*k & z*g)")
def _(s):
    return s.conj(s.conj(s.dl(("x", "g")), s.dl(("z", "h"))), s.conj(s.dl(("x", "k")), s.dl(("z", "g"))))


@skel("operators: x*g | z*h | ?u*k", choices=2)
def _(s):
    return s.disj(s.disj(s.dl(("x", "g")), s.dl(("z", "h"))), s.dlu("y", ("u", "k")))


@skel("operators: ?u*k | (x*g | z*h)", choices=2)
def _(s):
    return s.disj(s.dlu("y", ("u", "k")), s.disj(s.dl(("x", "g")), s.dl(("z", "h"))))


@skel("operators: (x*g | z*h) | (w*k | v*g)", choices=4)
def _(s):
    return s.disj(s.disj(s.dl(("x", "g")), s.dl(("z", "h"))), s.disj(s.dl(("w", "k")), s.dl(("v", "g"))))


@skel("operators: (x*g & z*h) | w*k & v*g", choices=2)
def _(s):
    return s.disj(s.conj(s.dl(("x", "g")), s.dl(("z", "h"))), s.conj(s.dl(("w", "k")), s.dl(("v", "g"))))


@skel("operators: (x*g | z*h) & (w*k | v*g)", choices=2)
def _(s):
    return s.conj(s.disj(s.dl(("x", "g")), s.dl(("z", "h"))), s.disj(s.dl(("w", "k")), s.dl(("v", "g"))))


@skel("operators: neq bind & x*k & z*h")
def _(s):
    return s.conj(s.conj(s.neq("x", "g", "h", "Y", True), s.dl(("x", "k"))), s.dl(("z", "h")))


@skel("x*g (Grp) & z*k (Grp2)")
def _(s):
    return s.all(s.dl(("x", "g")), s.dl(("z", ("k2", "Grp2")), ("w", ("l2", "Grp2"))), s.dl(("x", "h")))


@skel("x*g (Grp) | z*k (Grp2)", choices=2)
def _(s):
    return s.any(s.dl(("x", "g")), s.dl(("z", ("k2", "Grp2")), ("w", ("l2", "Grp2"))))


@skel("(neq & x*g) & (neq bind & x*k)")
def _(s):
    return s.all(s.all(s.neq("x", "g", "h", "Y", False), s.dl(("x", "g"))), s.all(s.neq("x", "h", "k", "Y2", True), s.dl(("x", "k"))))


@skel("(x*g & (neq | z*k)) & v*h", choices=2)
def _(s):
    return s.all(s.all(s.dl(("x", "g")), s.any(s.neq("w", "g", "h", "Y", True), s.dl(("z", "k")))), s.dl(("v", "h"), ("x", "k")))


@skel("bbs(m0)")
def _(s):
    return s.bbs(["m0"])


@skel("bbs(m0, m1, m2) of more generators")
def _(s):
    return s.bbs(["m0", "m1", "m2"], extra=2)


@skel("bbs(m0, m1) without binding")
def _(s):
    return s.bbs(["m0", "m1"], binding=False)


@skel("bbs(m0, m1) & m1*g")
def _(s):
    return s.all(s.bbs(["m0", "m1"]), s.dl(("m1", ("g", "G1"))))


@skel("bbs(m0, m1) & neq(m0)", heavy=True)
def _(s):
    return s.all(s.bbs(["m0", "m1"]), s.neq("m0", ("g", "G1"), ("h", "G1"), ("Y", "G1"), True))


@skel("z*g | bbs(m0, m1)", choices=2)
def _(s):
    return s.any(s.dl(("z", ("g", "G1"))), s.bbs(["m0", "m1"]))


@skel("?bbs(m0) without binding | z*g", choices=2)
def _(s):
    return s.any(s.bbs(["m0"], binding=False, known=False), s.dl(("z", ("g", "G1"))))


@skel("bbs(m0, m1) & e*g + s*h + m0*h", heavy=True)
def _(s):
    return s.all(s.bbs(["m0", "m1"]), s.dl(("e", ("g", "G1")), ("s", ("h", "G1")), ("m0", ("h", "G1"))))


@skel("bbs(m0) & bbs(m0, m1) of another signature", heavy=True)
def _(s):
    return s.all(s.bbs(["m0"], valid=False), s.bbs(["m0", "m1"], valid=False, es=("e2", "s2")))


BASES = ["g", "h", "k"] + ["g%d" % i for i in range(9)]


@skel("wide: conjunction of 11", wide=True)
def _(s):
    return s.all(*[s.dl(("x%d" % (i % 9), BASES[i]), *([("x10", "k")] if i in (3, 10) else [])) for i in range(11)])


@skel("wide: disjunction of 11", choices=(0, 5, 10), wide=True)
def _(s):
    return s.any(*[s.dl(("x%d" % (i % 7), BASES[i]), *([("x%d" % i, "k")] if i > 8 else [])) for i in range(11)])


@skel("wide: representation of 12 terms", wide=True)
def _(s):
    return s.dl(*[("x%d" % (i % 10), BASES[i]) for i in range(12)])


@skel("wide: 7 disjunctions of 2, conjunction", wide=True)
def _(s):
    return s.all(*[s.any(s.dl(("x%d" % i, "g")), s.dl(("y%d" % i, "h"))) for i in range(7)])


@skel("wide: disjunction of 6 conjunctions of 2", choices=(0, 3, 5), wide=True)
def _(s):
    return s.any(*[s.all(s.dl(("x%d" % i, "g")), s.dl(("x%d" % i, "h"), ("y%d" % i, "k"))) for i in range(6)])


@skel("deep: 6 levels", choices=2, wide=True)
def _(s):
    st = s.dl(("x0", "g"))
    for i in range(1, 7):
        if i % 2:
            st = s.all(s.dl(("x%d" % i, "g"), ("z%d" % i, "h")), st)
        else:
            st = s.any(st, s.dl(("x%d" % i, "g"), ("z%d" % i, "h")))
    return st


@skel("deep: 7 conjunctions", wide=True)
def _(s):
    st = s.dl(("x0", "g"))
    for i in range(1, 7):
        st = s.all(s.dl(("x%d" % (i // 2), "h"), ("z%d" % i, "k")), st) if i % 2 else s.all(st, s.dl(("x%d" % i, "g"), ("z%d" % (i - 1), "h")))
    return st


@skel("wide: 6 inequalities and representations", wide=True)
def _(s):
    return s.all(*[s.neq("x%d" % i, "g", "h", "Y%d" % i, i % 2 == 0) if i % 3 else s.dl(("x%d" % (i + 1), "k")) for i in range(9)])


def tree(seed):
    """A generated statement tree: depth up to four, recurring secrets, unknown clauses."""
    rnd = random.Random(seed)

    def gen(s, depth, pool, known):
        kind = rnd.choice(["dl", "and", "or"]) if depth else rnd.choice(["and", "or"])
        if depth >= 3 or kind == "dl":
            n = rnd.choice([1, 1, 2, 3])
            pairs = [(rnd.choice(pool), rnd.choice("ghk")) for _ in range(n)]
            return s.dl(*pairs, known=known) if known else s.dlu(s.w_lhs(), *pairs)
        n = rnd.choice([2, 2, 3, 4] if depth == 0 else [2, 2, 3])
        if kind == "and":
            return s.all(*[gen(s, depth + 1, pool, known) for _ in range(n)])
        sure = rnd.randrange(n)
        subs = []
        own = [s.name() for _ in range(3)]
        for i in range(n):
            k = known and (i == sure or rnd.random() < 0.6)
            subs.append(gen(s, depth + 1, own if k else [s.name() for _ in range(2)], k))
        return s.any(*subs)

    def f(s):
        rnd.seed(seed)
        s.count = 0
        return gen(s, 0, ["x", "z", "w"], True)

    return f


for _n in range(400):
    SKELETONS["tree %d" % _n] = (tree(_n), {"choices": 2, "tree": _n})


def build(sc, w, name, known):
    f, opts = SKELETONS[name]
    return f(Side(w, known))


def names(ck=None, heavy=None, pick=None):
    heavy = (ck is not None and ck.tier == "thorough") if heavy is None else heavy
    for n, (f, o) in list(SKELETONS.items()):
        if o.get("hidden") or n == "*":
            continue
        if o.get("heavy") and not heavy:
            continue
        if "tree" in o and o["tree"] >= (120 if heavy else 14):
            continue
        if pick is not None and not pick(n):
            continue
        yield n


def choices(name):
    c = SKELETONS[name][1].get("choices", 1)
    return range(c) if isinstance(c, int) else c


class Run:
    pass


def honest(ck, name, force=0, mode="nizk", message=None):
    """Honest proof and its verification."""
    sc = ck.scn()
    sc.I.force = force
    w = World(sc)
    R = Run()
    R.sc, R.w = sc, w
    R.ps = build(sc, w, name, True)
    kw = {} if message is None else {"message": message}
    if mode == "nizk":
        R.nizk = sc.m(R.ps.obj, "prove", **kw)
        R.proved = sc.pc
        R.vs = build(sc, w, name, False)
        r = sc.m(R.vs.obj, "verify", R.nizk, **kw)
    else:
        p = sc.m(R.ps.obj, "get_prover")
        R.vs = build(sc, w, name, False)
        v = sc.m(R.vs.obj, "get_verifier")
        sp = sc.new("SigmaProtocol", v, p)
        r = sc.m(sp, "verify", verbose=C(False))
    R.acc = point_norm(sc, sc.accept(r))
    return R


def adversary(ck, name, mode="nizk", first=None):
    """
    Verification of arbitrary proof values: everything the prover sends is symbolic.

    first: what the same statement object has verified before: an honest proof ("nizk" or "sigma") or an
    arbitrary one ("any", accepted or not, with a precommitment of its own).  Or what the verifier's own statement is
    like: all its parts are marked as simulated ("marked"), or it knows the values of the secrets ("knows").
    """
    sc = ck.scn()
    w = World(sc)
    R = Run()
    R.sc, R.w = sc, w
    w.marked = first == "marked"
    R.vs = build(sc, w, name, first == "knows")
    w.marked = False
    R.first = TRUE
    used = None
    if first == "any":
        pre = subst_pre(R.vs.pre(), sc)
        nizk = sc.new("NIZK", challenge=sc.num("c0"), responses=R.vs.respond("q"), precommitment=pre, stmt_hash=sym("sent_hash0"))
        R.first = sc.accept(sc.m(R.vs.obj, "verify", nizk, message=sym("msg0")))
    elif first in ("nizk", "sigma"):
        sc.I.force = 0
        ps = build(sc, w_like(w), name, True)
        if first == "nizk":
            r = sc.m(R.vs.obj, "verify", sc.m(ps.obj, "prove", message=C("first")), message=C("first"))
        else:
            used = sc.m(R.vs.obj, "get_verifier")
            r = sc.m(sc.new("SigmaProtocol", used, sc.m(ps.obj, "get_prover")), "verify", verbose=C(False))
        R.first = sc.accept(r)
    R.sh = sym("sent_hash")
    R.msg = sym("msg")
    R.resp = R.vs.respond()
    R.pre = R.vs.pre()
    R.mark = sc.mark()
    if mode == "nizk":
        R.c = sc.num("c")
        nizk = sc.new("NIZK", challenge=R.c, responses=R.resp, precommitment=R.pre, stmt_hash=R.sh)
        r = sc.m(R.vs.obj, "verify", nizk, message=R.msg)
    else:
        v = sc.m(R.vs.obj, "get_verifier") if used is None else used
        sc.m(v, "process_precommitment", R.pre)
        R.com = R.vs.commitment()
        R.c = sc.r(sc.m(v, "send_challenge", raw("lit", R.sh, R.com)))
        r = sc.m(v, "verify", R.resp)
    R.ret = r
    R.acc = point_norm(sc, sc.accept(r))
    R.prehash = None
    with sc.fork():
        sc.I.st.pc = TRUE
        o = build(sc, w_like(w), name, False)
        if o.has_pre():
            sc.m(sc.m(o.obj, "get_verifier"), "process_precommitment", R.pre)
        h = sc.m(o.obj, "prehash_statement")
        R.digest = point_norm(sc, sc.r(sc.m(h, "digest")))
    return R


def subst_pre(pre, sc):
    """A precommitment of the same form with other points and numbers."""
    pre = sc.r(pre)
    if pre.op in ("ref", "L", "D"):
        pre = content(pre)
    vs = {}

    def go(x):
        if x in t.POINTS and x.op == "sym":
            return vs.setdefault(x, sc.point(x.a[0] + "_0"))
        if x.op == "sym":
            return vs.setdefault(x, sc.num(x.a[0] + "_0"))
        if x.op in ("lit", "dput", "L", "D"):
            return raw(x.op, *[go(y) for y in x.a])
        return x

    r = go(pre)
    return raw("L", r) if r.op == "lit" else raw("D", r) if r.op == "dput" else r


def w_like(w):
    w2 = World(w.sc)
    w2.vals, w2.pts = w.vals, w.pts
    return w2
