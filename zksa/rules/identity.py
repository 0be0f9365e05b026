"""Statement identities: what they determine and what they must not depend on."""

from .common import *
from .skeletons import *
from .protocol import binds, flat_points

ID_AT = ("ComposableProofStmt.get_proof_id", "ComposableProofStmt.prehash_statement", "DLRep.get_proof_id",
         "ExtendedProofStmt.get_proof_id", "_CommonComposedStmtMixin.get_proof_id")


def digest_of(sc, node, pre=None):
    """Digest of the identity of a statement, its precommitment processed."""
    if node.has_pre():
        sc.m(sc.m(node.obj, "get_verifier"), "process_precommitment", node.pre() if pre is None else pre)
    h = sc.m(node.obj, "prehash_statement")
    return point_norm(sc, sc.r(sc.m(h, "digest")))


def identity(d):
    """What is hashed."""
    while d.op in ("digest", "hexdigest"):
        its = content(d.a[1])
        if its.op != "lit" or not its.a:
            return d.a[1]
        if len(its.a) > 1:
            return raw("lit", *its.a)
        d = its.a[0]
    return d


class Renamed(Side):
    """Builds the same statement with other names of secrets."""

    def s(self, name, known=None):
        if name not in self.secrets:
            k = self.known if known is None else (known and self.known)
            self.secrets[name] = self.sc.secret("renamed_" + name[::-1], self.w.v(name) if k else None)
        return self.secrets[name]


def shapes(ck):
    return names(ck, pick=lambda n: not n.startswith("range [") or ck.tier == "thorough")


@rule("C04", "equal statements built independently have equal identities")
def equal_ids(ck):
    loc = ck.at(*ID_AT)
    for name in shapes(ck):
        sc = ck.scn()
        sc.I.force = 0
        w = World(sc)
        f = SKELETONS[name][0]
        ds = {}
        for label, mk in (("verifier", lambda w: Side(w, False)), ("prover", lambda w: Side(w, True)),
                          ("renamed secrets", lambda w: Renamed(w, False))):
            with sc.fork():
                sc.I.st.pc = TRUE
                s = mk(w_like(w))
                ds[label] = digest_of(sc, f(s))
        for other in ("prover", "renamed secrets"):
            ck.same("%s: identity is the same for verifier and %s" % (name, other), ds[other], ds["verifier"], loc)
        t.SET_FLIP[0] = True
        try:
            with sc.fork():
                sc.I.st.pc = TRUE
                d = digest_of(sc, f(Side(w_like(w), False)))
        finally:
            t.SET_FLIP[0] = False
        ck.same("%s: identity does not depend on the order of sets" % name, d, ds["verifier"], loc)
        bad = [x for x in t.subterms(ds["verifier"]) if x.op in ("addr", "pyhash", "rand", "time", "secval")]
        what = "%s: identity holds no addresses, hash values of the process or random numbers" % name
        (ck.bad(what, short(bad[0]), loc) if bad else ck.ok(what))


@rule("C04", "proving and simulating leave the identity alone")
def stable_ids(ck):
    loc = ck.at(*ID_AT)
    for name in names(ck, heavy=False, pick=lambda n: not n.startswith("tree")):
        with ck.part(name):
            sc = ck.scn()
            sc.I.force = 0
            w = World(sc)
            n = SKELETONS[name][0](Side(w, True))
            if n.has_pre():
                continue
            d0 = digest_of(sc, n)
            sc.m(n.obj, "prove")
            d1 = digest_of(sc, n)
            ck.same("%s: identity before and after proving" % name, d1, d0, loc)


@rule("C04", "every base, left-hand side and precommitment is part of the identity in full")
def full_ids(ck):
    loc = ck.at(*ID_AT)
    for name in shapes(ck):
        sc = ck.scn()
        sc.I.force = 0
        w = World(sc)
        n = SKELETONS[name][0](Side(w, False))
        i = identity(digest_of(sc, n))
        miss = unclear = None
        for x in n.nodes():
            vs = []
            if x.kind == "dl":
                vs = [("left-hand side", x.lhs)] + [("base", b) for _, b in x.terms]
            if x.kind == "ext":
                vs = [("precommitment", y) for y in flat_points(sc.r(x.pre_))]
            for label, v in vs:
                b = binds(i, point_norm(sc, v))
                if b is False:
                    miss = miss or "%s %s" % (label, short(v, 120))
                elif b is None:
                    unclear = "%s %s" % (label, short(v, 120))
        what = "%s: identity contains all bases, left-hand sides and precommitments" % name
        if miss:
            ck.bad(what, "%s is not part of it" % miss, loc)
        elif unclear:
            ck.dunno(what, unclear)
        else:
            ck.ok(what)


def partitions(n):
    """Set partitions as restricted growth strings."""

    def go(p, m):
        if len(p) == n:
            yield p
            return
        for k in range(m + 1):
            yield from go(p + [k], max(m, k + 1))

    yield from go([], 0)


# Shapes with positions for secrets; all statements share points and left-hand sides.
SHARING = {
    "DLRep(?, ?, ?, ?)": (4, lambda s, x: s.dlu("y", *zip(x, "ghkl"))),
    "DLRep(?, ?) & DLRep(?, ?)": (4, lambda s, x: s.all(s.dlu("y", *zip(x[:2], "gh")), s.dlu("u", *zip(x[2:], "kl")))),
    "DLRep(?) & (DLRep(?) & DLRep(?, ?))": (4, lambda s, x: s.all(s.dlu("y", (x[0], "g")), s.all(s.dlu("u", (x[1], "h")), s.dlu("v", *zip(x[2:], "kl"))))),
    "DLRep(?, ?) | DLRep(?, ?)": (4, lambda s, x: s.any(s.dlu("y", *zip(x[:2], "gh")), s.dlu("u", *zip(x[2:], "kl")))),
    "DLRep(?) & (DLRep(?) | (DLRep(?) & DLRep(?)))": (4, lambda s, x: s.all(s.dlu("y", (x[0], "g")), s.any(s.dlu("u", (x[1], "h")), s.all(s.dlu("v", (x[2], "k")), s.dlu("w", (x[3], "l")))))),
    "(DLRep(?) | DLRep(?)) & (DLRep(?) | DLRep(?))": (4, lambda s, x: s.all(s.any(s.dlu("y", (x[0], "g")), s.dlu("u", (x[1], "h"))), s.any(s.dlu("v", (x[2], "k")), s.dlu("w", (x[3], "l"))))),
    "DLNotEqual(?) bind & DLRep(?, ?)": (3, lambda s, x: s.all(s.neq(x[0], "g", "h", "Y", True, lhs="y"), s.dlu("u", *zip(x[1:], "kl")))),
    "DLRep(?) | (DLNotEqual(?) bind & DLRep(?))": (3, lambda s, x: s.any(s.dlu("v", (x[0], "l")), s.all(s.neq(x[1], "g", "h", "Y", True, lhs="y"), s.dlu("u", (x[2], "k"))))),
    "DLRep(?) & DLRep(?) & DLRep(?) & DLRep(?) & DLRep(?)": (5, lambda s, x: s.all(*[s.dlu("y" + g, (a, g)) for a, g in zip(x, "ghklm")])),
}


@rule("C04", "the identity tells apart which positions share a secret")
def sharing(ck):
    loc = ck.at(*ID_AT, "_assign_secret_ids", "_CommonComposedStmtMixin.get_secret_vars")
    for label, (n, f) in SHARING.items():
        sc = ck.scn()
        sc.I.force = 0
        seen = {}
        clash = unclear = None
        w = World(sc)
        for p in partitions(n):
            with sc.fork():
                sc.I.st.pc = TRUE
                d = digest_of(sc, f(Side(w_like(w), False), ["s%d" % k for k in p]))
            if t.has_unknown(d):
                unclear = short(d)
            if d in seen:
                clash = "%s and %s have the same identity" % (show_pattern(seen[d]), show_pattern(p))
            seen[d] = p
        what = "%s: %d ways to share secrets, all with different identities" % (label, len(list(partitions(n))))
        if clash:
            ck.bad(what, clash, loc)
        elif unclear:
            ck.dunno(what, unclear)
        else:
            ck.ok(what)


def show_pattern(p):
    return "".join("xyzwv"[k] for k in p) if len(p) < 6 else "the one with positions %s sharing a secret" % ", ".join(
        str(i) for i, k in enumerate(p) if list(p).count(k) > 1)


WIDE = 40


def many(s, x):
    """One representation of WIDE terms."""
    return s.dlu("y", *[(a, "g%d" % i) for i, a in enumerate(x)])


def many_parts(s, x):
    """A conjunction of representations with WIDE terms in total."""
    return s.all(*[s.dlu("y%d" % i, (x[i], "g"), (x[i + 1], "h")) for i in range(0, WIDE, 2)])


@rule("C04", "long statements: identities tell apart sharing, bases and left-hand sides at every position")
def wide_ids(ck):
    loc = ck.at(*ID_AT, "_assign_secret_ids", "_CommonComposedStmtMixin.get_secret_vars")
    spots = range(WIDE) if ck.tier == "thorough" else (1, 2, 7, 8, 9, 10, 11, 15, 16, 17, 19, 20, 23, 24, 25, 30, 31, 32, 33, 38, 39)
    for label, f in (("representation of %d terms" % WIDE, many), ("conjunction of %d representations" % (WIDE // 2), many_parts)):
        sc = ck.scn()
        w = World(sc)
        ps = [tuple(range(WIDE))]
        ps += [tuple(0 if i == k else i for i in range(WIDE)) for k in spots if k]
        ps += [tuple(k - 1 if i == k else i for i in range(WIDE)) for k in spots if k > 1]
        seen = {}
        clash = unclear = None
        for p in ps:
            with sc.fork():
                sc.I.st.pc = TRUE
                n = f(Side(w_like(w), False), ["s%d" % k for k in p])
                d = digest_of(sc, n)
            if t.has_unknown(d):
                unclear = short(d)
            if d in seen:
                clash = "%s and %s have the same identity" % (show_pattern(seen[d]), show_pattern(p))
            seen[d] = p
            if p is ps[0]:
                i = identity(d)
                vs = [y for x in n.nodes() if x.kind == "dl" for y in [x.lhs] + [b for _, b in x.terms]]
                lost = [v for v in vs if binds(i, point_norm(sc, v)) is False]
        what = "%s: %d ways to share secrets, all with different identities" % (label, len(ps))
        if clash:
            ck.bad(what, clash, loc)
        elif unclear:
            ck.dunno(what, unclear)
        else:
            ck.ok(what)
        what = "%s: identity contains all bases and left-hand sides" % label
        if lost:
            ck.bad(what, "%s is not part of it" % short(lost[0]), loc)
        else:
            ck.ok(what)


A = lambda s: s.dlu("y1", ("x", "g"))  # noqa: E731
B = lambda s: s.dlu("y2", ("z", "h"))  # noqa: E731
D = lambda s: s.dlu("y3", ("w", "k"))  # noqa: E731
E = lambda s: s.dlu("y4", ("v", "l"))  # noqa: E731
N = lambda s, bind=False, y="Y", g="g", h="h", lhs="y": s.neq("x", g, h, y, bind, lhs=lhs)  # noqa: E731

# Families of pairwise different statements.
FAMILIES = {
    "connectives": {
        "A & B": lambda s: s.all(A(s), B(s)),
        "A | B": lambda s: s.any(A(s), B(s)),
    },
    "order of parts": {
        "A & B": lambda s: s.all(A(s), B(s)),
        "B & A": lambda s: s.all(B(s), A(s)),
        "A & B & D": lambda s: s.all(A(s), B(s), D(s)),
        "A & D & B": lambda s: s.all(A(s), D(s), B(s)),
        "A | B | D": lambda s: s.any(A(s), B(s), D(s)),
        "A | D | B": lambda s: s.any(A(s), D(s), B(s)),
    },
    "number of parts": {
        "A": A,
        "A & A": lambda s: s.all(A(s), A(s)),
        "A & A & A": lambda s: s.all(A(s), A(s), A(s)),
        "A | A": lambda s: s.any(A(s), A(s)),
        "A | A | A": lambda s: s.any(A(s), A(s), A(s)),
    },
    "structure": {
        "A & B & D & E": lambda s: s.all(A(s), B(s), D(s), E(s)),
        "(A & B) & (D & E)": lambda s: s.all(s.all(A(s), B(s)), s.all(D(s), E(s))),
        "A & (B & D & E)": lambda s: s.all(A(s), s.all(B(s), D(s), E(s))),
        "A & (B & (D & E))": lambda s: s.all(A(s), s.all(B(s), s.all(D(s), E(s)))),
        "(A & B & D) & E": lambda s: s.all(s.all(A(s), B(s), D(s)), E(s)),
        "A | B | D | E": lambda s: s.any(A(s), B(s), D(s), E(s)),
        "(A | B) & (D | E)": lambda s: s.all(s.any(A(s), B(s)), s.any(D(s), E(s))),
        "(A & B) | (D & E)": lambda s: s.any(s.all(A(s), B(s)), s.all(D(s), E(s))),
        "A & (B | D | E)": lambda s: s.all(A(s), s.any(B(s), D(s), E(s))),
        "A & (B | D) & E": lambda s: s.all(A(s), s.any(B(s), D(s)), E(s)),
        "A | (B & D & E)": lambda s: s.any(A(s), s.all(B(s), D(s), E(s))),
        "A | (B & D) | E": lambda s: s.any(A(s), s.all(B(s), D(s)), E(s)),
        "A | B | (D & E)": lambda s: s.any(A(s), B(s), s.all(D(s), E(s))),
        "(A | B) | (D | E)": lambda s: s.any(s.any(A(s), B(s)), s.any(D(s), E(s))),
    },
    "representations": {
        "y = xg": lambda s: s.dlu("y", ("x", "g")),
        "y = xh": lambda s: s.dlu("y", ("x", "h")),
        "u = xg": lambda s: s.dlu("u", ("x", "g")),
        "g = xy": lambda s: s.dlu("g", ("x", "y")),
        "y = xg + zh": lambda s: s.dlu("y", ("x", "g"), ("z", "h")),
        "y = xh + zg": lambda s: s.dlu("y", ("x", "h"), ("z", "g")),
        "y = xg + xh": lambda s: s.dlu("y", ("x", "g"), ("x", "h")),
        "y = xg + zg": lambda s: s.dlu("y", ("x", "g"), ("z", "g")),
        "y = xg + zh + wk": lambda s: s.dlu("y", ("x", "g"), ("z", "h"), ("w", "k")),
        "y = xg + zk + wh": lambda s: s.dlu("y", ("x", "g"), ("z", "k"), ("w", "h")),
    },
    "representations in a conjunction": {
        "y = xg, u = zh": lambda s: s.all(s.dlu("y", ("x", "g")), s.dlu("u", ("z", "h"))),
        "u = xg, y = zh": lambda s: s.all(s.dlu("u", ("x", "g")), s.dlu("y", ("z", "h"))),
        "y = xh, u = zg": lambda s: s.all(s.dlu("y", ("x", "h")), s.dlu("u", ("z", "g"))),
        "y = xg + zh, u = wk": lambda s: s.all(s.dlu("y", ("x", "g"), ("z", "h")), s.dlu("u", ("w", "k"))),
        "y = xg, u = zh + wk": lambda s: s.all(s.dlu("y", ("x", "g")), s.dlu("u", ("z", "h"), ("w", "k"))),
    },
    "inequalities": {
        "neq": N,
        "neq bind": lambda s: N(s, True),
        "neq Z": lambda s: N(s, False, "Z"),
        "neq bind Z": lambda s: N(s, True, "Z"),
        "neq k for h": lambda s: N(s, False, "Y", "g", "k"),
        "neq k for g": lambda s: N(s, False, "Y", "k", "h"),
        "neq g, h swapped": lambda s: N(s, False, "Y", "h", "g"),
        "neq of another left-hand side": lambda s: N(s, False, lhs="u"),
        "neq bind of another left-hand side": lambda s: N(s, True, lhs="u"),
        "neq with y, Y swapped": lambda s: N(s, False, "y", lhs="Y"),
    },
    "inequality below a connective": {
        "neq & A": lambda s: s.all(N(s), A(s)),
        "A & neq": lambda s: s.all(A(s), N(s)),
        "neq | A": lambda s: s.any(N(s), A(s)),
        "neq bind & A": lambda s: s.all(N(s, True), A(s)),
        "neq bind | A": lambda s: s.any(N(s, True), A(s)),
    },
    "ranges": {
        "2 bits": lambda s: s.range2(2),
        "3 bits": lambda s: s.range2(3),
        "4 bits": lambda s: s.range2(4),
    },
    "credentials": {
        "m0, m1": lambda s: s.bbs(["m0", "m1"], valid=False),
        "m0, m0": lambda s: s.bbs(["m0", "m0"], valid=False),
        "m0, m1, m2": lambda s: s.bbs(["m0", "m1", "m2"], valid=False),
    },
}


@rule("C04", "different statements have different identities")
def different_ids(ck):
    loc = ck.at(*ID_AT)
    for fam, stmts in FAMILIES.items():
        sc = ck.scn()
        sc.I.force = 0
        seen = {}
        w = World(sc)
        for label, f in stmts.items():
            with sc.fork():
                sc.I.st.pc = TRUE
                w2 = w_like(w)
                seen[label] = digest_of(sc, f(Side(w2, False)))
        labels = list(seen)
        for i, a in enumerate(labels):
            for b in labels[:i]:
                ck.different("%s: identities of %s and %s differ" % (fam, b, a), seen[b], seen[a], loc)


@rule("C04", "the identity depends on every precommitment")
def precommitments(ck):
    loc = ck.at("ExtendedProofStmt.get_proof_id")
    for label, f in (("neq", N), ("neq bind", lambda s: N(s, True)), ("A & neq", lambda s: s.all(A(s), N(s))),
                     ("A | neq bind", lambda s: s.any(A(s), N(s, True))), ("neq | neq", lambda s: s.any(N(s), N(s))),
                     ("range", lambda s: s.range2(2)), ("bbs", lambda s: s.bbs(["m0"], valid=False))):
        sc = ck.scn()
        sc.I.force = 0
        w = World(sc)
        n0 = f(Side(w_like(w), False))
        ps = [x for m in n0.nodes() if m.kind == "ext" for x in flat_points(sc.r(m.pre_))]
        d0 = digest_of(sc, n0)
        for x in dict.fromkeys(ps):
            y = sc.point("other") if x in t.POINTS else sc.num("other")
            ck.different("%s: identity depends on %s of the precommitment" % (label, x), d0, rename(d0, x, y), loc)


class Hashed(Side):
    """The identity of every part has been asked for before it became a part, with another precommitment."""

    def _hashed(self, xs):
        for x in xs:
            if x.has_pre():
                self.sc.m(self.sc.m(x.obj, "get_verifier"), "process_precommitment", subst_pre(x.pre(), self.sc))
            self.sc.m(x.obj, "prehash_statement")
        return xs

    def any(self, *xs):
        return super().any(*self._hashed(xs))

    def all(self, *xs):
        return super().all(*self._hashed(xs))


@rule("C04", "the identity is the one of the present statement, whatever it has been before")
def present(ck):
    loc = ck.at(*ID_AT, "ExtendedProofStmt.get_proof_id", "ExtendedProofStmt.full_construct_stmt")
    for label, f in (("x*g & x*h", lambda s: s.all(A(s), s.dl(("x", "h")))), ("x*g & (x*h | z*k)", lambda s: s.all(A(s), s.any(s.dl(("w", "h")), s.dl(("z", "k"))))),
                     ("neq", N), ("neq bind", lambda s: N(s, True)), ("A & neq", lambda s: s.all(A(s), N(s))),
                     ("A & neq bind & neq", lambda s: s.all(A(s), N(s, True), s.neq("v", "g", "h", "Z", False))),
                     ("A | neq bind", lambda s: s.any(A(s), N(s, True))), ("(A & neq) | neq", lambda s: s.any(s.all(A(s), N(s)), s.neq("v", "g", "h", "Z", False))),
                     ("range", lambda s: s.range2(2)), ("range & A", lambda s: s.all(s.range2(2), s.dl(("z", "g")))),
                     ("bbs", lambda s: s.bbs(["m0"], valid=False)), ("bbs & m0*g", lambda s: s.all(s.bbs(["m0"], valid=False), s.dl(("m0", ("g", "G1")))))):
        with ck.part(label):
            sc = ck.scn()
            sc.I.force = 0
            w = World(sc)
            d0 = digest_of(sc, f(Side(w_like(w), False)))
            n = f(Side(w_like(w), False))
            if n.has_pre():
                digest_of(sc, n, subst_pre(n.pre(), sc))
                ck.same("%s: identity after another precommitment" % label, digest_of(sc, n), d0, loc)
            ck.same("%s: identity when asked again" % label, digest_of(sc, n), d0, loc)
            if len(list(n.nodes())) > 1:
                n = f(Hashed(w_like(w), False))
                ck.same("%s: identity, if the identities of the parts were asked for before" % label, digest_of(sc, n), d0, loc)


def rename(d, x, y):
    return subst(d, {x: y})
