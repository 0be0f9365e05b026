"""Histories of building, proving, simulating and verifying with shared objects (C17)."""

from .common import *
from .skeletons import *
from .protocol import raised, VERIFY

BUILD_AT = ("ComposableProofStmt.__and__", "ComposableProofStmt.__or__", "AndProofStmt.__init__", "OrProofStmt.__init__",
            "_CommonComposedStmtMixin.__copy__", "ExtendedProofStmt.__copy__")
EXPR_AT = ("Expression.__add__", "Expression.__init__", "wsum_secrets")


# ---------------------------------------------------------------------------------------------
# expressions


def flatlist(sc, v):
    x = sc.seq(v)
    x = content(x)
    if x.op != "lit":
        raise AnalysisBroken("list of unknown length: %s" % short(x, 100))
    return list(x.a)


def expr_is(ck, sc, what, e, pairs, loc):
    ss, bs = flatlist(sc, sc.get(e, "secrets")), flatlist(sc, sc.get(e, "bases"))
    want_s, want_b = [sc.r(s) for s, _ in pairs], [sc.r(b) for _, b in pairs]
    if len(ss) == len(want_s) and len(bs) == len(want_b) and all(strip_occ(x) is strip_occ(y) for x, y in zip(ss + bs, want_s + want_b)):
        ck.ok(what)
    elif any(t.has_unknown(x) for x in ss + bs):
        ck.dunno(what, short(ss + bs))
    else:
        ck.bad(what, "it has secrets %s and bases %s" % (short(ss, 150), short(bs, 150)), loc)


@rule("C17", "sums of expressions hold all terms in order and leave the summands alone")
def sums(ck):
    loc = ck.at(*EXPR_AT)
    for n in (1, 2, 3, 6):
        for m in (1, 2, 4):
            sc = ck.scn()
            a = [(sc.secret("a%d" % i), sc.point("g%d" % i)) for i in range(n)]
            b = [(sc.secret("b%d" % i), sc.point("h%d" % i)) for i in range(m)]
            c = [(sc.secret("c"), sc.point("k"))]
            ea, eb, ec = sc.term(*a), sc.term(*b), sc.term(*c)
            sc.run("r = ea + eb\nr2 = ea + ec\nr3 = r + eb\nr4 = ea + ea\nr5 = eb + r", ea=ea, eb=eb, ec=ec)
            if not sc.alive():
                ck.bad("%d + %d terms" % (n, m), "fails" + raised(sc), loc)
                continue
            for name, e, want in (("a + b", "r", a + b), ("a + c after a + b", "r2", a + c), ("(a + b) + b", "r3", a + b + b),
                                  ("a + a", "r4", a + a), ("b + (a + b)", "r5", b + a + b),
                                  ("a afterwards", "ea", a), ("b afterwards", "eb", b), ("c afterwards", "ec", c)):
                expr_is(ck, sc, "%s, with %d and %d terms" % (name, n, m), sc.var(e), want, loc)
    for n in range(1, 10):
        sc = ck.scn()
        ss = [sc.secret("s%d" % i) for i in range(n)]
        bs = [sc.point("g%d" % i) for i in range(n)]
        ls, lb = sc.list(*ss), sc.list(*bs)
        e = sc.call(sc.F("zksk.expr", "wsum_secrets"), ls, lb)
        if not sc.alive():
            ck.bad("weighted sum of %d terms" % n, "fails" + raised(sc), loc)
            continue
        expr_is(ck, sc, "weighted sum of %d terms" % n, e, list(zip(ss, bs)), loc)
        what = "weighted sum of %d terms leaves its arguments alone" % n
        if flatlist(sc, ls) == [sc.r(x) for x in ss] and flatlist(sc, lb) == [sc.r(x) for x in bs]:
            ck.ok(what)
        else:
            ck.bad(what, short(flatlist(sc, ls) + flatlist(sc, lb)), loc)
    sc = ck.scn()
    a = [(sc.secret("a%d" % i), sc.point("g%d" % i)) for i in range(2)]
    e = sc.term(*a)
    d = sc.new("DLRep", sc.point("y"), e)
    sc.run("f = e + e", e=e)
    what = "a statement is not affected by later uses of its expression"
    bs = flatlist(sc, sc.m(d, "get_bases"))
    (ck.ok(what) if bs == [sc.r(b) for _, b in a] else ck.bad(what, short(bs), loc))


@rule("C17", "augmented assignment rebinds a name and changes no object")
def augmented(ck):
    loc = ck.at(*EXPR_AT)
    for n in (1, 3):
        sc = ck.scn()
        a = [(sc.secret("a%d" % i), sc.point("g%d" % i)) for i in range(n)]
        b = [(sc.secret("b"), sc.point("h"))]
        ea, eb = sc.term(*a), sc.term(*b)
        d = sc.new("DLRep", sc.point("y"), ea)
        sc.run("e = ea\nea += eb\neb2 = eb\neb += e", ea=ea, eb=eb)
        if not sc.alive():
            ck.bad("%d terms" % n, "fails" + raised(sc), loc)
            continue
        for label, e, want in (("the sum", "ea", a + b), ("the other name", "e", a), ("the second sum", "eb", b + a), ("its other name", "eb2", b)):
            expr_is(ck, sc, "%s after e += f, %d terms" % (label, n), sc.var(e), want, loc)
        bs = flatlist(sc, sc.m(d, "get_bases"))
        what = "a statement is not affected by e += f, %d terms" % n
        (ck.ok(what) if bs == [sc.r(g) for _, g in a] else ck.bad(what, short(bs), loc))
    loc = ck.at(*BUILD_AT)
    for op, cls in (("&", "AndProofStmt"), ("|", "OrProofStmt")):
        for part in ("leaf", "and", "or"):
            sc = ck.scn()
            s = Side(World(sc), True)
            p, q = PARTS[part](s, 0), PARTS["leaf"](s, 1)
            whole = s.all(p, q).obj
            before = [snapshot(sc, x) for x in (p.obj, q.obj, whole)]
            sc.run("old = p\np %s= q" % op, p=p.obj, q=q.obj)
            if not sc.alive():
                ck.bad("%s %s= leaf" % (part, op), "fails" + raised(sc), loc)
                continue
            got = sc.r(sc.m(sc.var("p"), "get_proof_id"))
            want = sc.r(sc.m((s.conj if op == "&" else s.disj)(p, q).obj, "get_proof_id"))
            ck.same("%s %s= leaf: the composition" % (part, op), point_norm(sc, got), point_norm(sc, want), loc)
            for label, x, y in zip(("the left part", "the right part", "a statement that contains them"), (p.obj, q.obj, whole), before):
                for k, v in snapshot(sc, x).items():
                    ck.same("%s %s= leaf: %s of %s unchanged" % (part, op, k, label), v, y[k], loc)


# ---------------------------------------------------------------------------------------------
# composition


def snapshot(sc, obj):
    """What a user can observe of a statement."""
    out = {}
    for m in ("get_secret_vars", "get_bases", "get_proof_id"):
        with sc.fork():
            out[m] = sc.r(sc.m(obj, m)) if not is_open(sc, obj) else None
    with sc.fork():
        out["simulated"] = sc.r(sc.get(obj, "simulated"))
    return out


def is_open(sc, obj):
    """The statement has parts which depend on a precommitment."""
    o = sc.I.obj(obj)
    if any(c.name == "ExtendedProofStmt" for c in sc.prog.mro(o.cls)):
        return True
    with sc.fork():
        subs = sc.I.st.s.get(("f", obj.a[0], "subproofs"))
        return subs is not None and any(is_open(sc, x) for x in sc.items(subs))


PARTS = {
    "leaf": lambda s, i: s.dl(("x%d" % i, "g"), ("w%d" % i, "h")),
    "and": lambda s, i: s.all(s.dl(("x%d" % i, "g")), s.dl(("w%d" % i, "h"))),
    "or": lambda s, i: s.any(s.dl(("x%d" % i, "g")), s.dl(("w%d" % i, "h"))),
    "and3": lambda s, i: s.all(s.dl(("x%d" % i, "g")), s.dl(("w%d" % i, "h")), s.dl(("v%d" % i, "k"))),
    "or of ands": lambda s, i: s.any(s.all(s.dl(("x%d" % i, "g")), s.dl(("w%d" % i, "h"))), s.dl(("v%d" % i, "k"))),
    "and of ors": lambda s, i: s.all(s.any(s.dl(("x%d" % i, "g")), s.dl(("w%d" % i, "h"))), s.dl(("v%d" % i, "k"))),
    "neq": lambda s, i: s.neq("x%d" % i, "g", "h", "Y%d" % i, True),
}


def composed_id(sc, node):
    """Identity of the composition the node describes, built with the constructors from fresh parts."""
    if node.kind in ("and", "or"):
        return sc.new(node.cls, *[composed_id(sc, x) for x in node.subs])
    if node.kind == "dl":
        return node.obj
    raise AnalysisBroken("open statement")


def leaves_of(node):
    return [node] if node.kind in ("dl", "ext") else [y for x in node.subs for y in leaves_of(x)]


@rule("C17", "composition keeps all operands in order and merges the same kind only")
def composition(ck):
    loc = ck.at(*BUILD_AT)
    for op in ("&", "|"):
        for l in PARTS:
            for r in PARTS:
                sc = ck.scn()
                sc.I.force = 0
                w = World(sc)
                s = Side(w, True)
                a, b = PARTS[l](s, 0), PARTS[r](s, 1)
                before = [snapshot(sc, x.obj) for x in (a, b)]
                node = (s.conj if op == "&" else s.disj)(a, b)
                after = [snapshot(sc, x.obj) for x in (a, b)]
                name = "%s %s %s" % (l, op, r)
                if not sc.alive():
                    ck.bad(name, "fails" + raised(sc), loc)
                    continue
                for k, (x, y) in enumerate(zip(before, after)):
                    for f in x:
                        if x[f] is not None:
                            ck.same("%s: %s of operand %d unchanged" % (name, f, k), y[f], x[f], loc)
                if is_open(sc, node.obj):
                    compare_open(ck, sc, s, node, name, loc)
                    continue
                got = sc.r(sc.m(node.obj, "get_proof_id"))
                want = sc.r(sc.m(composed_id(sc, node), "get_proof_id"))
                ck.same("%s: same identity as the composition of the parts" % name, point_norm(sc, got), point_norm(sc, want), loc)
                terms = [p for x in leaves_of(node) for p in x.terms]
                bases = flatlist(sc, sc.m(node.obj, "get_bases"))
                what = "%s: all bases in order" % name
                (ck.ok(what) if bases == [sc.r(b) for _, b in terms] else ck.bad(what, short(bases), loc))
                secs = flatlist(sc, sc.m(node.obj, "get_secret_vars"))
                what = "%s: all secrets in order" % name
                (ck.ok(what) if secs == [sc.r(s.s(x)) for x, _ in terms] else ck.bad(what, short(secs, 200), loc))
    for n in range(2, 8):
        for op in ("&", "|"):
            for assoc in ("left", "right", "middle"):
                sc = ck.scn()
                s = Side(World(sc), True)
                xs = [s.dl(("x%d" % i, "g")) for i in range(n)]
                f = s.conj if op == "&" else s.disj
                ys = list(xs)
                while len(ys) > 1:
                    k = 0 if assoc == "left" else len(ys) - 2 if assoc == "right" else (len(ys) - 1) // 2
                    ys[k:k + 2] = [f(ys[k], ys[k + 1])]
                got = sc.r(sc.m(ys[0].obj, "get_proof_id"))
                want = sc.r(sc.m(sc.new("AndProofStmt" if op == "&" else "OrProofStmt", *[x.obj for x in xs]), "get_proof_id"))
                ck.same("chain of %d %s, grouped to the %s" % (n, op, assoc), point_norm(sc, got), point_norm(sc, want), loc)


@rule("C17", "a composition combined with itself has all parts twice")
def selfies(ck):
    loc = ck.at(*BUILD_AT)
    for kind in ("and", "or"):
        for op in ("&", "|"):
            for n in (2, 3):
                for times in (2, 3):
                    sc = ck.scn()
                    s = Side(World(sc), True)
                    xs = [s.dl(("x%d" % i, "g")) for i in range(n)]
                    o = (s.all if kind == "and" else s.any)(*xs).obj
                    r = o
                    for _ in range(times - 1):
                        r = sc.I.binop(ast.BitAnd() if op == "&" else ast.BitOr(), r, o, None)
                    cls = "AndProofStmt" if op == "&" else "OrProofStmt"
                    parts_ = [x.obj for x in xs] * times if (kind == "and") == (op == "&") else [o] * times
                    got = sc.r(sc.m(r, "get_proof_id"))
                    want = sc.r(sc.m(sc.new(cls, *parts_), "get_proof_id"))
                    ck.same("%s" % (" %s " % op).join(["%s of %d" % (kind, n)] * times), point_norm(sc, got), point_norm(sc, want), loc)


def compare_open(ck, sc, s, node, name, loc):
    """The composition verifies the proofs of the flattened tree."""
    tree = Node(s.w, node.kind, None, subs=node.subs, cls=node.cls)
    objs = [x.obj for x in tree.subs]
    if any(o is None for o in objs):
        return
    p = sc.new(node.cls, *objs)
    nizk = sc.m(p, "prove")
    acc = point_norm(sc, sc.accept(sc.m(node.obj, "verify", nizk)))
    what = "%s: accepts proofs of the composition of the parts" % name
    if acc is FALSE:
        ck.bad(what, "never accepted" + raised(sc), loc)
    else:
        ck.holds(what, acc, where=loc)


# ---------------------------------------------------------------------------------------------
# one object at several places


SHARED = {}


def shared(name, choices=1):
    def deco(f):
        SHARED[name] = (f, choices)
        return f

    return deco


@shared("d & d")
def _(s):
    d = s.dl(("x", "g"), ("z", "h"))
    return s.all(d, d)


@shared("d & d & d")
def _(s):
    d = s.dl(("x", "g"))
    return s.conj(s.conj(d, d), d)


@shared("d | d", 2)
def _(s):
    d = s.dl(("x", "g"))
    return s.any(d, d)


@shared("neq & neq")
def _(s):
    n = s.neq("x", "g", "h", "Y", False)
    return s.all(n, n)


@shared("binding neq & neq & d")
def _(s):
    n = s.neq("x", "g", "h", "Y", True)
    return s.conj(s.conj(n, n), s.dl(("x", "k")))


@shared("neq | neq", 2)
def _(s):
    n = s.neq("x", "g", "h", "Y", True)
    return s.any(n, n)


@shared("(neq & d) twice")
def _(s):
    p = s.all(s.neq("x", "g", "h", "Y", False), s.dl(("z", "k")))
    return s.all(p, p)


@shared("p & p, p = binding neq & d")
def _(s):
    p = s.conj(s.neq("x", "g", "h", "Y", True), s.dl(("x", "k")))
    return s.conj(p, p)


@shared("p | p, p = neq & d", 2)
def _(s):
    p = s.all(s.neq("x", "g", "h", "Y", True), s.dl(("x", "k")))
    return s.any(p, p)


@shared("(p & d) twice, p = neq & e")
def _(s):
    p = s.all(s.neq("x", "g", "h", "Y", False), s.dl(("z", "k")))
    q = s.all(p, s.dl(("w", "g")))
    return s.all(q, q, p)


@shared("p & (neq | d), p contains the same neq", 2)
def _(s):
    n = s.neq("x", "g", "h", "Y", False)
    return s.all(s.all(n, s.dl(("z", "k"))), s.any(n, s.dl(("w", "g"))))


@shared("(neq & d) | neq | d", 3)
def _(s):
    n, d = s.neq("x", "g", "h", "Y", True), s.dl(("z", "k"))
    return s.any(s.all(n, d), n, d)


@shared("((d | e) | (d | e)) nested", 2)
def _(s):
    p = s.any(s.dl(("x", "g")), s.dl(("z", "h")))
    return s.any(p, p)


@shared("range & range")
def _(s):
    r = s.range2(2, bits=2)
    return s.all(r, r)


@shared("(range & d) twice")
def _(s):
    p = s.all(s.range2(2, bits=1), s.dl(("z", "k")))
    return s.all(p, p)


@shared("[3,6) & [3,6)")
def _(s):
    r = s.range(3, 6, value=4)
    return s.all(r, r)


@shared("range | range", 2)
def _(s):
    r = s.range2(2, bits=3)
    return s.any(r, r)


@shared("bbs & bbs")
def _(s):
    b = s.bbs(["m0", "m1"])
    return s.all(b, b)


@shared("(bbs without binding & d) twice")
def _(s):
    p = s.all(s.bbs(["m0"], binding=False), s.dl(("z", ("g", "G1"))))
    return s.all(p, p)


@shared("bbs | bbs", 2)
def _(s):
    b = s.bbs(["m0"])
    return s.any(b, b)


@rule("C17", "one statement can occur at several places")
def occurrences(ck):
    loc = ck.at(*BUILD_AT)
    for name, (f, n) in SHARED.items():
        for k in range(n):
            for mode in ("nizk", "interactive"):
                SKELETONS["*"] = (f, {})
                R = honest(ck, "*", k, mode)
                what = "%s: honest %s proof verifies (choice %d)" % (name, mode, k)
                if R.acc is FALSE:
                    ck.bad(what, "never accepted" + raised(R.sc), loc)
                else:
                    ck.holds(what, R.acc, where=loc)
        sc = ck.scn()
        node = f(Side(World(sc), False))
        acc = point_norm(sc, sc.accept(sc.m(node.obj, "verify_simulation_consistency", sc.m(node.obj, "simulate"))))
        what = "%s: a simulation is consistent" % name
        if acc is FALSE:
            ck.bad(what, "never" + raised(sc), loc)
        else:
            ck.holds(what, acc, where=loc)


# ---------------------------------------------------------------------------------------------
# histories

PROVER = {
    "proving": "n1 = p.prove()",
    "proving twice": "n1 = p.prove()\nn2 = p.prove()",
    "simulating": "p.simulate()",
    "simulating and proving": "p.simulate()\nn1 = p.prove()",
    "proving and simulating": "n1 = p.prove()\np.simulate()",
    "proving and verifying": "p.verify(p.prove())",
    "committing twice": "q = p.get_prover()\nq.precommit()\nq.commit()\nq = p.get_prover()\nq.precommit()\nq.commit()",
    "composing": "p & o\np | o\no & p",
    "proving it as a part": "(o & p).prove()\n(p | o).prove()",
    "checking a simulation": "p.verify_simulation_consistency(p.simulate())",
    "printing": "p.get_prover()\nrepr(p.prove())\nrepr(p)",
}
VERIFIER = {
    "nothing": "",
    "verifying": "v.verify(first)",
    "verifying twice": "v.verify(first)\nv.verify(first)",
    "refusing": "try:\n    v.verify(forged)\nexcept Exception:\n    pass",
    "simulating": "v.verify_simulation_consistency(v.simulate())",
    "simulating and verifying": "v.simulate()\nv.verify(first)",
    "verifying as a part": "try:\n    (o & v).verify(forged)\nexcept Exception:\n    pass",
}
def subjects():
    """Skeletons to try histories with."""
    return {
        "x*g + z*h": (lambda s: s.dl(("x", "g"), ("z", "h")), 1),
        "x*g & z*h": (lambda s: s.all(s.dl(("x", "g")), s.dl(("z", "h"))), 1),
        "x*g | z*h": (lambda s: s.any(s.dl(("x", "g")), s.dl(("z", "h"))), 2),
        "(x*g & z*h) | ?w*k": (lambda s: s.any(s.all(s.dl(("x", "g")), s.dl(("z", "h"))), s.dlu("W", ("w", "k"))), 1),
        "(x*g | z*h | v*k) & w*k": (lambda s: s.all(s.any(s.dl(("x", "g")), s.dl(("z", "h")), s.dl(("v", "k"))), s.dl(("w", "k"))), 2),
        "neq": (lambda s: s.neq("x", "g", "h", "Y", True), 1),
        "x*k & neq": (lambda s: s.all(s.dl(("x", "k")), s.neq("x", "g", "h", "Y", True)), 1),
        "z*k | neq": (lambda s: s.any(s.dl(("z", "k")), s.neq("x", "g", "h", "Y", False)), 2),
        "2 of two bits": (lambda s: s.range2(2, bits=2), 1),
        "range & z*k": (lambda s: s.all(s.range2(2, bits=1), s.dl(("z", "k"))), 1),
        "bbs(m0)": (lambda s: s.bbs(["m0"]), 1),
        "z*g | bbs(m0)": (lambda s: s.any(s.dl(("z", ("g", "G1"))), s.bbs(["m0"], binding=False)), 2),
    }


def forged(sc, node):
    return sc.new("NIZK", challenge=sc.num("fc"), responses=node.respond("fz"), precommitment=node.pre(), stmt_hash=sym("fh"))


@rule("C17", "statements can be used again in any order")
def histories(ck):
    loc = ck.at("DLRep.get_prover", "AndProofStmt.get_prover", "OrProofStmt.get_prover", "ExtendedProofStmt.get_prover",
                "ComposableProofStmt.simulate", "ExtendedProofStmt.full_construct_stmt", *VERIFY["nizk"])
    for name, (f, n) in subjects().items():
        for k in range(n):
            plan = [(a, "nothing") for a in PROVER] + [("proving", b) for b in VERIFIER if b != "nothing"]
            for a, b in plan:
                what = "%s (choice %d): proof after %s verifies after %s" % (name, k, a, b)
                sc = ck.scn()
                sc.I.force = k
                w = World(sc)
                ps, vs = Side(w, True), Side(w_like(w), False)
                p, v = f(ps), f(vs)
                marks = [sc.r(sc.get(p.obj, "simulated")), [sc.r(s_) for s_ in marks_of(sc, p.obj)]]
                o = ps.dl(("other", ("g", "G1") if "bbs" in name else "g")).obj
                sc.run(PROVER[a], p=p.obj, o=o)
                if not sc.alive():
                    ck.bad("%s (choice %d): %s" % (name, k, a), "fails" + raised(sc), loc)
                    continue
                first = sc.var("n1")
                sc.I.force = k + 1 if b == "nothing" and n > 1 else k
                nizk = sc.m(p.obj, "prove")
                if b != "nothing":
                    with_forged = forged(sc, v)
                    sc.run(VERIFIER[b], v=v.obj, first=first, forged=with_forged, o=o)
                    if not sc.alive():
                        ck.bad("%s (choice %d): %s" % (name, k, b), "fails" + raised(sc), loc)
                        continue
                acc = point_norm(sc, sc.accept(sc.m(v.obj, "verify", nizk)))
                if acc is FALSE:
                    ck.bad(what, "never accepted" + raised(sc), loc)
                else:
                    ck.holds(what, acc, where=loc)
                if b == "nothing":
                    now = [sc.r(sc.get(p.obj, "simulated")), [sc.r(s_) for s_ in marks_of(sc, p.obj)]]
                    what = "%s (choice %d): %s leaves no marks" % (name, k, a)
                    (ck.ok(what) if now == marks else ck.bad(what, "marks %s became %s" % (short(marks), short(now)), loc))


def marks_of(sc, obj):
    """Marks of the parts of a statement."""
    subs = sc.I.st.s.get(("f", obj.a[0], "subproofs"))
    out = []
    if subs is not None:
        for x in sc.items(subs):
            out.append(sc.get(x, "simulated"))
            out += marks_of(sc, x)
    return out


PARALLEL = {
    "x*g": lambda s: s.dl(("x", "g")),
    "neq": lambda s: s.neq("x", "g", "h", "Y", True),
    "neq & z*k": lambda s: s.all(s.neq("x", "g", "h", "Y", False), s.dl(("z", "k"))),
    "z*k | neq": lambda s: s.any(s.dl(("z", "k")), s.neq("x", "g", "h", "Y", False)),
    "two bits": lambda s: s.range2(2, bits=2),
    "bbs(m0)": lambda s: s.bbs(["m0"]),
}

STEPS = """
v1 = w1.get_verifier()
v2 = w2.get_verifier()
q1 = c1.get_prover()
q2 = c2.get_prover()
e1 = q1.precommit()
e2 = q2.precommit()
v1.process_precommitment(e1)
v2.process_precommitment(e2)
a1 = q1.commit()
a2 = q2.commit()
d1 = v1.send_challenge(a1)
d2 = v2.send_challenge(a2)
r1 = q1.compute_response(d1)
r2 = q2.compute_response(d2)
ok1 = v1.verify(r1)
ok2 = v2.verify(r2)
"""


@rule("C17", "statements made of the same part can be proven in parallel")
def parallel(ck):
    loc = ck.at(*BUILD_AT, "ExtendedVerifier.process_precommitment", "_CommonComposedStmtMixin.__init__")
    for name, f in PARALLEL.items():
        for how, a, b in (("p & d, p & e", "all", "all"), ("p & d, e & p", "all", "lla"), ("p | d, p & e", "any", "all"), ("p & d, p | e", "all", "any"),
                          ("operators p & d, p & e", "conj", "conj"),
                          ("p & d, p", "all", "part"), ("p & p, p", "two", "part"), ("p & p, p & e", "two", "all"), ("p | p, p", "either", "part")):
            if a == "two" and "|" in name:
                continue  # secrets of two disjunctions
            sc = ck.scn()
            sc.I.force = 0
            w = World(sc)
            G = ("g", "G1") if "bbs" in name else "g"

            def two(s):
                p, d, e = f(s), s.dl(("d", G)), s.dl(("e", G))
                own = {"lla": lambda x, y: s.all(y, x), "part": lambda x, y: x, "two": lambda x, y: s.all(x, x), "either": lambda x, y: s.any(x, x)}
                mk = lambda how, x, y: own[how](x, y) if how in own else getattr(s, how)(x, y)
                return mk(a, p, d).obj, mk(b, p, e).obj

            c1, c2 = two(Side(w, True))
            w1, w2 = two(Side(w_like(w), False))
            sc.run(STEPS, c1=c1, c2=c2, w1=w1, w2=w2)
            for k in (1, 2):
                what = "%s, p = %s: run %d of two at the same time is accepted" % (how, name, k)
                if not sc.alive():
                    ck.bad(what, "fails" + raised(sc), loc)
                    continue
                acc = point_norm(sc, sc.accept(sc.var("ok%d" % k)))
                if acc is FALSE:
                    ck.bad(what, "never accepted" + raised(sc), loc)
                else:
                    ck.holds(what, acc, where=loc)


# Uses of a part before it becomes a part of something else.
USES = {
    "proving": "p.prove()",
    "simulating": "p.simulate()",
    "reading": "p.get_randomizers()\np.get_secret_vars()\np.get_bases()\nrepr(p)\np.get_verifier()\nq = p.get_prover()\nq.precommit()\np.full_validate()\np.prehash_statement()",
}
FIRST = {
    "x*k & neq bind & neq": (lambda s: s.all(s.dl(("x", "k")), s.neq("x", "g", "h", "Y", True), s.neq("v", "g", "h", "Z", False)), 1),
    "(neq & x*g) & (neq bind & x*k)": (lambda s: s.all(s.all(s.neq("v", "g", "h", "Y", False), s.dl(("x", "g"))),
                                                       s.all(s.neq("x", "g", "h", "Z", True), s.dl(("x", "k")))), 1),
    "z*k | (neq bind & x*h)": (lambda s: s.any(s.dl(("z", "k")), s.all(s.neq("x", "g", "h", "Y", True), s.dl(("x", "h")))), 2),
    "(x*g & (neq | z*k)) & v*h": (lambda s: s.all(s.all(s.dl(("x", "g")), s.any(s.neq("w", "g", "h", "Y", False), s.dl(("z", "k")))), s.dl(("v", "h"))), 2),
    "(z*k | (x*g & z*h)) | w*h": (lambda s: s.any(s.any(s.dl(("v", "k")), s.all(s.dl(("x", "g")), s.dl(("z", "h")))), s.dl(("w", "h"))), 3),
    "((x*g | ?u*k) & z*h) & w*h": (lambda s: s.all(s.all(s.any(s.dl(("x", "g")), s.dlu("U", ("u", "k"))), s.dl(("z", "h"))), s.dl(("w", "h"))), 1),
    "bbs(m0, m1) & m1*g": (lambda s: s.all(s.bbs(["m0", "m1"]), s.dl(("m1", ("g", "G1")))), 1),
    "operators: (x*g & z*h) | w*k": (lambda s: s.disj(s.conj(s.dl(("x", "g")), s.dl(("z", "h"))), s.dl(("w", "k"))), 2),
    "operators: x*g & z*h & w*k": (lambda s: s.conj(s.conj(s.dl(("x", "g")), s.dl(("z", "h"))), s.dl(("w", "k"))), 1),
    "2 of two bits & z*k": (lambda s: s.all(s.range2(2, bits=2), s.dl(("z", "k"))), 1),
}


class Used(Side):
    """All parts are used on their own before they become parts."""

    how = None

    def _used(self, xs):
        for x in xs:
            self.sc.run("try:\n    %s\nexcept Exception:\n    pass" % self.how.replace("\n", "\n    "), p=x.obj)
        return xs

    def any(self, *xs):
        return super().any(*self._used(xs))

    def all(self, *xs):
        return super().all(*self._used(xs))

    def conj(self, *xs):
        return super().conj(*self._used(xs))

    def disj(self, *xs):
        return super().disj(*self._used(xs))


@rule("C17", "parts that were used on their own can be composed")
def used_before(ck):
    loc = ck.at(*BUILD_AT, "_CommonComposedStmtMixin.get_secret_vars", "_CommonComposedStmtMixin.get_bases")
    for name, (f, n) in FIRST.items():
        for use in USES:
            for k in range(n):
                sc = ck.scn()
                sc.I.force = k
                w = World(sc)
                ps, vs = Used(w, True), Used(w_like(w), False)
                ps.how = USES[use]
                vs.how = USES["simulating" if use == "proving" else use]
                p, v = f(ps), f(vs)
                acc = point_norm(sc, sc.accept(sc.m(v.obj, "verify", sc.m(p.obj, "prove"))))
                what = "%s (choice %d), parts after %s: the proof verifies" % (name, k, use)
                if acc is FALSE:
                    ck.bad(what, "never accepted" + raised(sc), loc)
                else:
                    ck.holds(what, acc, where=loc)


@rule("C17", "the values given when proving are left alone")
def given(ck):
    loc = ck.at("DLRep.get_prover", "AndProofStmt.get_prover", "OrProofStmt.get_prover", "ExtendedProofStmt.get_prover")
    for name, (f, n) in subjects().items():
        if "bits" in name or "range" in name:
            continue
        sc = ck.scn()
        sc.I.force = 0
        w = World(sc)
        s = Side(w, True)
        p = f(s)
        d = sc.dict()
        for x, obj in s.secrets.items():
            sc.I.setitem(d, obj, w.v(x), None)
        before = content(sc.r(d))
        sc.m(p.obj, "prove", d)
        ck.same("%s: the dictionary" % name, content(sc.r(d)), before, loc)


@rule("C17", "lists given by the user are left alone")
def lists(ck):
    def setup():
        sc = ck.scn()
        sc.I.force = 0
        return sc, Side(World(sc), True)

    def check(what, sc, l, go, loc):
        before = content(sc.r(l))
        go()
        if not sc.alive():
            ck.bad("%s: it works" % what, "fails" + raised(sc), loc)
            return
        ck.same("%s: the list has the same items" % what, content(sc.r(l)), before, loc)

    for n in (0, 1, 2):
        ms = ["m%d" % i for i in range(n)]
        for binding in (False, True) if n else ():
            sc, s = setup()
            A, e, sv = s.w.p("A_e", "G1"), s.w.v("e"), s.w.v("s")
            pk = s.bbs_key(n, (A, e, sv, [s.w.v(m) for m in ms]))[0]
            sig = sc.new("BBSPlusSignature", A=A, e=e, s=sv)
            l = sc.list(*([sc.secret("e"), sc.secret("s")] if binding else []), *[s.s(m) for m in ms])

            def go():
                st = sc.new("BBSPlusSignatureStmt", l, pk, sig, binding=C(binding))
                sc.m(st, "prove")
                sc.m(sc.new("BBSPlusSignatureStmt", l, pk, binding=C(binding)), "simulate")

            check("statement about a signature of %d messages%s" % (n, ", binding" if binding else ""), sc, l, go, ck.at("BBSPlusSignatureStmt.__init__"))
        for zkp in (True, False):
            sc, s = setup()
            pk = s.bbs_key(n)[0]
            l = sc.list(*[sc.num("n%d" % i) for i in range(n)])
            check("commitment to %d messages%s" % (n, ", blinded" if zkp else ""), sc, l,
                  lambda: sc.m(sc.new("BBSPlusSignatureCreator", pk), "commit", l, zkp=C(zkp)), ck.at("BBSPlusSignatureCreator.commit"))
        sc, s = setup()
        pk = s.bbs_key(n)[0]
        l = sc.list(*[sc.num("n%d" % i) for i in range(n)])
        sig = sc.new("BBSPlusSignature", A=s.w.p("A", "G1"), e=s.w.v("e"), s=s.w.v("s"))
        check("verification of a signature of %d messages" % n, sc, l, lambda: sc.m(sig, "verify_signature", pk, l), ck.at("BBSPlusSignature.verify_signature"))
        gens = sc.get(pk, "generators")
        check("verification of a signature of %d messages, generators" % n, sc, gens, lambda: sc.m(sig, "verify_signature", pk, l),
              ck.at("BBSPlusSignature.verify_signature"))
    for n in (1, 2, 3):
        for which in ("secrets", "bases"):
            sc, s = setup()
            xs = sc.list(*[s.s("x%d" % i) for i in range(n)])
            gs = sc.list(*[s.p("g%d" % i) for i in range(n)])
            y = sc.point("Y")

            def go():
                e = sc.call(sc.F("zksk.expr", "wsum_secrets"), xs, gs)
                sc.run("f = e + e\nf += e\ne.eval()\nd = DLRep(y, e)\nd & d\nd | d\nd.simulate()", e=e, y=y, DLRep=sc.K("DLRep"))

            check("weighted sum of %d secrets, %s" % (n, which), sc, xs if which == "secrets" else gs, go, ck.at("wsum_secrets", "Expression.__add__"))
