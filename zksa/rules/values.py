"""Which statements yield provers, and with which values (C19)."""

import itertools

from .common import *
from .skeletons import *
from .protocol import raised, VERIFY

PROVER_AT = ("DLRep.get_prover", "AndProofStmt.get_prover", "OrProofStmt.get_prover", "ExtendedProofStmt.get_prover",
             "DLNotEqual.get_prover", "BBSPlusSignatureStmt.get_prover")


def none_of(sc, p):
    """Condition under which there is no prover."""
    return isnone(sc.r(p))


def exists(ck, what, sc, st, expected, loc, vals=None):
    """The statement has a prover exactly if expected; returns it if it has."""
    args = [] if vals is None else [vals]
    mk = sc.mark()
    with sc.fork():
        p = sc.m(st, "get_prover", *args)
        alive, pc, none = sc.alive(), sc.pc, none_of(sc, p) if sc.alive() else FALSE
        why = raised(sc) if len(sc.I.events) > mk else ""
    if expected:
        has = AND(pc, NOT(none))
        if has is TRUE:
            ck.ok(what + " has a prover")
        elif t.has_unknown(has):
            ck.dunno(what + " has a prover", short(has))
        elif has is FALSE:
            ck.bad(what + " has a prover", "none" + why, loc)
        else:
            ck.holds(what + " has a prover", has, where=loc)
        return has is not FALSE
    has = AND(pc, NOT(none))
    if has is FALSE:
        ck.ok(what + " has no prover")
    elif t.has_unknown(has):
        ck.dunno(what + " has no prover", short(has))
    elif model.differ(has, FALSE, trials=40) is True:
        ck.bad(what + " has no prover", "it has one", loc)
    else:
        ck.add(AGREES, what + " has no prover")
    return False


@rule("C19", "representations have a prover exactly if all their secrets are known")
def leaf(ck):
    loc = ck.at("DLRep.get_prover", "DLRep.__init__")
    for n in (1, 2, 3, 4):
        for how in itertools.product(("before", "given", "unknown"), repeat=n):
            for sim in (False, True):
                if n == 4 and (sim or how.count("unknown") > 1):
                    continue
                sc = ck.scn()
                vs = [sc.num("v%d" % i) for i in range(n)]
                ss = [sc.secret("s%d" % i, vs[i] if how[i] == "before" else None) for i in range(n)]
                gs = [sc.point("g%d" % i) for i in range(n)]
                y = ZERO
                for v, g in zip(vs, gs):
                    y = add(y, mul(v, g))
                e = sc.term(*zip(ss, gs))
                d = sc.new("DLRep", y, e, *([TRUE] if sim else []))
                vals = sc.dict()
                for s, v, h in zip(ss, vs, how):
                    if h == "given":
                        sc.I.setitem(vals, s, v, None)
                want = "unknown" not in how and not sim
                exists(ck, "representation with secrets %s%s" % (", ".join(how), ", simulated" if sim else ""), sc, d, want, loc, vals)
    for k in (0, 1):
        # recurring secrets
        sc = ck.scn()
        s, g, h = sc.secret("s", sc.num("v") if k else None), sc.point("g"), sc.point("h")
        d = sc.new("DLRep", sc.point("y"), sc.term((s, g), (s, h)))
        exists(ck, "representation with a recurring %s secret" % ("known" if k else "unknown"), sc, d, bool(k), loc)
    sc = ck.scn()
    d, lhs, S, B, n = dlrep_n(sc)
    vals = sym("VALS")
    p = sc.m(d, "get_prover", sc.dict(vals))
    # for every length: a prover has the value of each secret
    ps = instances(p)
    what = "for any number of secrets: some have no prover, others do"
    if len(ps) == 1 and ps[0][0] not in (TRUE, FALSE):
        ck.ok(what, short(ps[0][0]))
    elif any(t.has_unknown(c) for c, _ in ps):
        ck.dunno(what, short(ps))
    else:
        ck.bad(what, short([c for c, _ in ps]), loc)


# ---------------------------------------------------------------------------------------------
# trees


class Known(Node):
    pass


def provable(n):
    if n.simulated:
        return False
    if n.kind == "and":
        return all(provable(x) for x in n.subs)
    if n.kind == "or":
        return any(provable(x) for x in n.subs)
    return n.known


def partial(seed):
    """A generated tree in which some values are unknown, others given late, some parts marked as simulated."""
    rnd = random.Random("partial%d" % seed)
    names_ = ("x%d" % i for i in itertools.count())
    plan = {}

    def gen(depth):
        kind = rnd.choice(["dl", "dl", "neq", "and", "or"]) if depth else rnd.choice(["and", "or", "or"])
        if depth >= 3 and kind in ("and", "or"):
            kind = "dl"
        sim = rnd.random() < (0.15 if depth else 0.05)
        if kind in ("and", "or"):
            return (kind, sim, [gen(depth + 1) for _ in range(rnd.choice([2, 2, 3]))])
        xs = [next(names_) for _ in range(1 if kind == "neq" else rnd.choice([1, 2]))]
        for x in xs:
            plan[x] = rnd.choice(["before", "before", "before", "given", "given", "unknown"])
        return (kind, sim, xs)

    return gen(0), plan


class Late(Side):
    """A side with some values known before, some given late and some unknown."""

    def __init__(self, w, plan, stale=False):
        super().__init__(w, True)
        self.plan, self.stale = plan, stale

    def how(self, name):
        return self.plan(name) if callable(self.plan) else self.plan.get(name, "before")

    def s(self, name, known=None):
        if name not in self.secrets:
            h = self.how(name) if known is not False else "unknown"
            v = self.w.v(name) if h == "before" else self.sc.num(name + "_old") if h == "given" and self.stale else None
            self.secrets[name] = self.sc.secret(name, v)
            if h == "given":
                self.late.append((self.secrets[name], self.w.v(name)))
        return self.secrets[name]

    late = ()

    def values(self):
        d = self.sc.dict()
        for s, v in self.late:
            self.sc.I.setitem(d, s, v, None)
        return d


def grow(s, tree, plan):
    kind, sim, xs = tree
    if kind in ("and", "or"):
        n = (s.all if kind == "and" else s.any)(*[grow(s, x, plan) for x in xs])
        n.known = True
    elif kind == "dl":
        n = s.dl(*[(x, g) for x, g in zip(xs, "gh")])
        n.known = all(plan[x] != "unknown" for x in xs)
    else:
        n = s.neq(xs[0], "g", "h", "Y" + xs[0], False)
        n.known = plan[xs[0]] != "unknown"
    n.simulated = sim
    if sim:
        s.sc.m(n.obj, "set_simulated")
    return n


def show(tree, plan):
    kind, sim, xs = tree
    inner = ", ".join(show(x, plan) if isinstance(x, tuple) else plan[x] for x in xs)
    return "%s%s(%s)" % ("simulated " if sim else "", kind, inner)


@rule("C19", "compositions have a prover exactly if the needed secrets are known")
def trees(ck):
    loc = ck.at(*PROVER_AT)
    for seed in range(400 if ck.tier == "thorough" else 60):
        tree, plan = partial(seed)
        name = "%d: %s" % (seed, show(tree, plan))
        for k in (0, 1, 2) if "or(" in name else (0,):
            sc = ck.scn()
            sc.I.force = k
            w = World(sc)
            s = Late(w, plan)
            s.late = []
            n = grow(s, tree, plan)
            want = provable(n)
            if not exists(ck, "%s (choice %d)" % (name, k), sc, n.obj, want, loc, s.values()) or not want:
                continue
            if k or any(y[1] for y in flat_tree(tree)) is False and seed % 3:
                continue
            nizk = sc.m(n.obj, "prove", s.values())
            v = grow(Late(w_like(w), {x: "unknown" for x in plan}), unmarked(tree), plan)
            acc = point_norm(sc, sc.accept(sc.m(v.obj, "verify", nizk)))
            what = "%s: its proof verifies (choice %d)" % (name, k)
            if acc is FALSE:
                ck.bad(what, "never accepted" + raised(sc), loc)
            else:
                ck.holds(what, acc, where=loc)


def flat_tree(tree):
    yield tree
    if tree[0] in ("and", "or"):
        for x in tree[2]:
            yield from flat_tree(x)


def unmarked(tree):
    kind, _, xs = tree
    return (kind, False, [unmarked(x) for x in xs] if kind in ("and", "or") else xs)


FIXED = {
    # name: (statement, has a prover)
    "?neq | z*k": (lambda s: s.any(s.neq("x", "g", "h", "Y", True, known=False), s.dl(("z", "k"))), True),
    "z*k | ?neq": (lambda s: s.any(s.dl(("z", "k")), s.neq("x", "g", "h", "Y", True, known=False)), True),
    "?neq": (lambda s: s.neq("x", "g", "h", "Y", False, known=False), False),
    "?neq & z*k": (lambda s: s.all(s.neq("x", "g", "h", "Y", False, known=False), s.dl(("z", "k"))), False),
    "?bbs": (lambda s: s.bbs(["m0"], known=False), False),
    "?bbs without binding": (lambda s: s.bbs(["m0"], binding=False, known=False), False),
    "?bbs & z*g": (lambda s: s.all(s.bbs(["m0"], known=False), s.dl(("z", ("g", "G1")))), False),
    "?bbs | z*g": (lambda s: s.any(s.bbs(["m0"], known=False), s.dl(("z", ("g", "G1")))), True),
    "bbs | ?z*g": (lambda s: s.any(s.bbs(["m0"]), s.dlu(("Z", "G1"), ("z", ("g", "G1")))), True),
    "?x*g & ?z*h | w*k": (lambda s: s.any(s.all(s.dlu("X", ("x", "g")), s.dlu("Z", ("z", "h"))), s.dl(("w", "k"))), True),
    "x*g & (?z*h | ?w*k)": (lambda s: s.all(s.dl(("x", "g")), s.any(s.dlu("Z", ("z", "h")), s.dlu("W", ("w", "k")))), False),
    "(x*g & (?z*h | ?w*k)) | v*g": (lambda s: s.any(s.all(s.dl(("x", "g")), s.any(s.dlu("Z", ("z", "h")), s.dlu("W", ("w", "k")))),
                                                    s.dl(("v", "g"))), True),
    "?range | z*k": (lambda s: s.any(s.range2(2, known=False), s.dl(("z", "k"))), True),
}


def simulated_of(f):
    def g(s):
        n = f(s)
        s.sc.m(n.obj, "set_simulated")
        return n
    return g


for _n, _f in (("leaf", lambda s: s.dl(("x", "g"))), ("and", lambda s: s.all(s.dl(("x", "g")), s.dl(("z", "h")))),
               ("or", lambda s: s.any(s.dl(("x", "g")), s.dl(("z", "h")))), ("neq", lambda s: s.neq("x", "g", "h", "Y", True)),
               ("range", lambda s: s.range2(2, bits=2)), ("bbs", lambda s: s.bbs(["m0"]))):
    FIXED["simulated " + _n] = (simulated_of(_f), False)
    _z = (lambda s: s.dl(("u", ("g", "G1")))) if _n == "bbs" else lambda s: s.dl(("u", "k"))
    FIXED["simulated %s | u*k" % _n] = (lambda s, _f=_f, _z=_z: s.any(simulated_of(_f)(s), _z(s)), True)
    FIXED["simulated %s & u*k" % _n] = (lambda s, _f=_f, _z=_z: s.all(simulated_of(_f)(s), _z(s)), False)
    FIXED["(simulated %s & u*k) | ?v*k" % _n] = (lambda s, _f=_f, _z=_z: s.any(s.all(simulated_of(_f)(s), _z(s)), s.dlu(
        "V" if _n != "bbs" else ("V", "G1"), ("v", ("k", "G1") if "bbs" == _n else "k"))), False)


@rule("C19", "disjunctions with many clauses use the one that can be proven")
def clauses(ck):
    loc = ck.at("OrProofStmt.get_prover", "OrProofStmt.__init__")
    for n in (2, 3, 4, 5, 7, 34):
        for good in (sorted({0, 1, n // 2, n - 1}) if n < 34 else [0, n - 1]) + [None]:
            for rest in ("unknown", "simulated", "conjunction", "mixed") if n < 34 else ("unknown", "simulated"):
                for k in range(n) if n < 5 else (0, n - 1):
                    sc = ck.scn()
                    sc.I.force = k
                    w = World(sc)
                    s = Side(w, True)
                    xs = []
                    for i in range(n):
                        how = "good" if i == good else ("unknown", "simulated", "conjunction")[i % 3] if rest == "mixed" else rest
                        if how == "unknown":
                            xs.append(s.dlu("U%d" % i, ("u%d" % i, "g")))
                        elif how == "conjunction":
                            xs.append(s.all(s.dl(("x%d" % i, "g")), s.dlu("U%d" % i, ("u%d" % i, "g"))))
                        else:
                            xs.append(s.dl(("x%d" % i, "g")))
                            if how == "simulated":
                                sc.m(xs[-1].obj, "set_simulated")
                    o = s.any(*xs)
                    name = "%d clauses, %s known, others %s (choice %d)" % (n, "none" if good is None else "clause %d" % good, rest, k)
                    exists(ck, name, sc, o.obj, good is not None, loc)


@rule("C19", "extended statements and their compositions have a prover exactly if they can be proven")
def fixed(ck):
    loc = ck.at(*PROVER_AT)
    for name, (f, want) in FIXED.items():
        for k in (0, 1):
            sc = ck.scn()
            sc.I.force = k
            w = World(sc)
            n = f(Side(w, True))
            if not exists(ck, "%s (choice %d)" % (name, k), sc, n.obj, want, loc) or not want:
                continue
            nizk = sc.m(n.obj, "prove")
            what = "%s: its proof verifies (choice %d)" % (name, k)
            if not sc.alive():
                ck.bad(what, "proving fails" + raised(sc), loc)
                continue
            v = f(Side(w_like(w), False))
            acc = point_norm(sc, sc.accept(sc.m(v.obj, "verify", nizk)))
            if acc is FALSE:
                ck.bad(what, "never accepted" + raised(sc), loc)
            else:
                ck.holds(what, acc, where=loc)
    # a signature statement needs the messages, too
    for binding in (True, False):
        for lack in ([0], [1], [0, 1], []):
            sc = ck.scn()
            w = World(sc)
            s = Side(w, True)
            for i in lack:
                s.s("m%d" % i, False)
            n = s.bbs(["m0", "m1"], binding=binding)
            what = "signature statement %s, %d of two messages known" % ("with binding" if binding else "without binding", 2 - len(lack))
            exists(ck, what + (" (lacks %s)" % lack if lack else ""), sc, n.obj, not lack, loc)


# ---------------------------------------------------------------------------------------------
# values given when proving


@rule("C19", "values given when proving take effect everywhere")
def precedence(ck):
    loc = ck.at("DLRep.get_prover", "AndProofStmt.get_prover", "OrProofStmt.get_prover", "ExtendedProofStmt.get_prover",
                "update_secret_values")
    plans = {"all values": lambda x: "given", "every other value": lambda x: "given" if sum(map(ord, x)) % 2 else "before",
             "the remaining values": lambda x: "before" if sum(map(ord, x)) % 2 else "given"}
    for name in names(ck, pick=lambda n: "schnorr" not in n and "range" not in n and "[" not in n and "bit" not in n):
        with ck.part(name):
            f = SKELETONS[name][0]
            for label, plan in plans.items():
                if name.startswith("tree") and label != "all values" and ck.tier != "thorough":
                    continue
                for stale in (False, True):
                    sc = ck.scn()
                    sc.I.force = 0
                    w = World(sc)
                    s = Late(w, plan, stale)
                    s.late = []
                    n = f(s)
                    if not s.late:
                        continue
                    nizk = sc.m(n.obj, "prove", s.values())
                    what = "%s: proof of %s given when proving%s verifies" % (name, label, ", others known before," if stale else "")
                    if not sc.alive():
                        ck.bad(what, "proving fails" + raised(sc), loc)
                        continue
                    v = f(Side(w_like(w), False))
                    acc = point_norm(sc, sc.accept(sc.m(v.obj, "verify", nizk)))
                    if acc is FALSE:
                        ck.bad(what, "never accepted" + raised(sc), loc)
                    else:
                        ck.holds(what, acc, where=loc)
