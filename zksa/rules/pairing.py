"""Wrappers of pairing points, serialization of points and proofs."""

from .common import *
from .skeletons import *
from .protocol import binds, raised

KINDS = (("G1", "G1Point", "G1Elem"), ("G2", "G2Point", "G2Elem"), ("GT", "AdditivePoint", "GTElem"))


class Ops:
    """What the operations on wrapped values are: GT is written multiplicatively by the library."""

    def __init__(self, kind):
        self.mult = kind == "GT"
        self.zero = ONE if self.mult else INF

    def plus(self, a, b):
        return mul(a, b) if self.mult else add(a, b)

    def minus(self, a, b):
        return self.plus(a, self.times(C(-1), b))

    def times(self, n, a):
        return t.power(a, n) if self.mult else mul(n, a)


class Setting:
    """A bilinear setting with wrapped points p, q, ... of every group."""

    def __init__(self, ck, name="a", sc=None):
        self.ck = ck
        self.sc = sc or ck.scn()
        self.bpgp = self.raw_setting(name)
        self.bp = self.sc.new("BilinearGroupPair", self.bpgp)
        self.made = {}

    def raw_setting(self, name):
        x = raw("call", "bplib.bp.BpGroup", C("#" + name))
        return x

    def group(self, kind):
        return self.sc.get(self.bp, kind)

    def wrapped(self, kind, name):
        x = sym(name)
        if kind != "GT":
            t.POINTS.add(x)
        return x

    def pt(self, kind, name):
        cls = dict((k, c) for k, c, _ in KINDS)[kind]
        return self.sc.new(cls, self.wrapped(kind, name), self.bp)

    def is_point(self, what, p, kind, want, loc, bp=None):
        """p is a wrapper of `want` in the given group of the setting."""
        sc, ck = self.sc, self.ck
        cls = dict((k, c) for k, c, _ in KINDS)[kind]
        for c, x in t.leaves(p):
            if c is FALSE:
                continue
            if x.op != "ref":
                return ck.dunno(what, short(x, 100)) if t.has_unknown(x) else ck.bad(what, "%s is no point" % short(x, 100), loc)
            o = sc.I.obj(x)
            if o.cls is None or o.cls.name != cls:
                return ck.bad(what, "result is of class %s" % (o.cls and o.cls.name), loc)
            if sc.get(x, "bp") is not (bp or self.bp):
                return ck.bad(what, "result belongs to another setting", loc)
            if sc.get(x, "group") is not sc.get(bp or self.bp, kind):
                return ck.bad(what, "result belongs to another group", loc)
        return ck.same(what, sc.r(sc.get(p, "pt")), want, loc)

    def unchanged(self, what, kind, pts, loc):
        sc = self.sc
        for p, w in pts:
            if sc.r(sc.get(p, "pt")) is not w or sc.get(p, "bp") is not self.bp or sc.get(p, "group") is not self.group(kind):
                return self.ck.bad(what, "%s became %s" % (w, short(sc.r(sc.get(p, "pt")), 100)), loc)
        return self.ck.ok(what)

    def alive(self, what, loc):
        if self.sc.alive() and self.sc.pc is TRUE:
            return True
        self.ck.bad(what, "fails: %s%s" % (short(NOT(self.sc.pc), 100), raised(self.sc)), loc)
        self.sc.I.st.pc = TRUE
        return False


def loc_of(ck, cls, *ms):
    return ck.at(*["%s.%s" % (cls, m) for m in ms]) or ck.at(cls)


@rule("C15", "sums, differences and multiples are those of the wrapped points")
def arithmetic(ck):
    for kind, cls, _ in KINDS:
        S = Setting(ck)
        sc, U = S.sc, Ops(kind)
        wp, wq = S.wrapped(kind, "p"), S.wrapped(kind, "q")
        n = sc.num("n")
        binary = [("p + q", ast.Add(), U.plus(wp, wq)), ("p - q", ast.Sub(), U.minus(wp, wq))]
        for label, op, want in binary:
            p, q = S.pt(kind, "p"), S.pt(kind, "q")
            what = "%s: %s" % (cls, label)
            loc = loc_of(ck, cls, "__add__", "__sub__")
            r = sc.I.binop(op, p, q, None)
            if S.alive(what, loc):
                S.is_point(what, r, kind, want, loc)
            S.unchanged(what + " leaves its operands alone", kind, [(p, wp), (q, wq)], loc)
            what = "%s: %s" % (cls, label.replace("q", "p"))
            r = sc.I.binop(op, p, p, None)
            if S.alive(what, loc):
                S.is_point(what, r, kind, U.plus(wp, wp) if isinstance(op, ast.Add) else U.minus(wp, wp), loc)
            S.unchanged(what + " leaves its operands alone", kind, [(p, wp)], loc)
        for k in [n, neg(n), mod(n, C(7))] + [C(k) for k in (-5, -2, -1, 0, 1, 2, 3, 10, 2 ** 128, 2 ** 255)]:
            for side in ("left", "right"):
                p = S.pt(kind, "p")
                loc = loc_of(ck, cls, "__mul__", "__rmul__")
                what = "%s: multiple by %s, scalar on the %s" % (cls, short(k), side)
                r = sc.I.binop(ast.Mult(), *([k, p] if side == "left" else [p, k]), None)
                if S.alive(what, loc):
                    S.is_point(what, r, kind, U.times(k, wp), loc)
                    if kind == "GT":
                        powers(ck, sc, what, r, k, loc)
                S.unchanged(what + " leaves its operand alone", kind, [(p, wp)], loc)
        if_inplace(ck, S, kind, cls, wp, wq)


def powers(ck, sc, what, r, k, loc):
    """The library gets exponentiation by zero wrong: it is never asked for it."""
    x = sc.r(sc.get(r, "pt"))
    z = eq(k, ZERO)
    if z is FALSE or z.op != "ite":
        return
    y = t.restrict(x, z.a[0], z.a[1] is TRUE)
    bad = [u for u in t.subterms(y) if u.op == "pow" and u.a[1] is not C(-1)]
    what += ": the wrapped point is not raised to the power zero"
    if bad:
        ck.bad(what, "%s if the scalar is zero" % short(bad[0], 100), loc)
    else:
        ck.ok(what)


def if_inplace(ck, S, kind, cls, wp, wq):
    """p += q builds a new point: other references to p keep their value."""
    sc = S.sc
    U = Ops(kind)
    for name, arg, label in (("__iadd__", "q", "+="), ("__isub__", "q", "-="), ("__imul__", None, "*=")):
        m = sc.prog.lookup(sc.prog.cls(cls), name)
        if not isinstance(m, Fn):
            ck.ok("%s: p %s q rebinds p only" % (cls, label))
            continue
        p, q = S.pt(kind, "p"), S.pt(kind, "q")
        r = sc.m(p, name, q if arg else C(3))
        want = {"+=": U.plus(wp, wq), "-=": U.minus(wp, wq), "*=": U.times(C(3), wp)}[label]
        S.is_point("%s: %s" % (cls, label), r, kind, want, loc_of(ck, cls, name))
        S.unchanged("%s: p %s q rebinds p only" % (cls, label), kind, [(p, wp), (q, wq)], loc_of(ck, cls, name))


@rule("C15", "operations on a point do not depend on the ones before")
def sequences(ck):
    for order in (1, -1):
        for kind, cls, _ in KINDS:
            S = Setting(ck)
            sc, U = S.sc, Ops(kind)
            ws = [S.wrapped(kind, x) for x in "pqr"]
            p, q, r = (S.pt(kind, x) for x in "pqr")
            n, m = sc.num("n"), sc.num("m")
            ops = [("p %s %s" % (sym_, x), (lambda op=op, y=y: sc.I.binop(op(), p, y, None)), f(ws[0], w), kind)
                   for x, y, w in zip("qrp", (q, r, p), (ws[1], ws[2], ws[0])) for sym_, op, f in (("+", ast.Add, U.plus), ("-", ast.Sub, U.minus))]
            ops += [("%s * p" % short(k), (lambda k=k: sc.I.binop(ast.Mult(), k, p, None)), U.times(k, ws[0]), kind) for k in (n, m, C(3), C(-2), C(3))]
            if kind != "GT":
                other = "G2" if kind == "G1" else "G1"
                wo = [S.wrapped(other, x) for x in ("u", "v")]
                for x, w in zip(("u", "v"), wo):
                    y = S.pt(other, x)
                    a, b, wa, wb = (p, y, ws[0], w) if kind == "G1" else (y, p, w, ws[0])
                    ops.append(("pairing with %s" % x, (lambda a=a, b=b: sc.m(a, "pair", b)), t.pair(wa, wb), "GT"))
            loc = ck.at(cls)
            for label, f, want, k in ops[::order]:
                what = "%s, one after the other%s: %s" % (cls, "" if order == 1 else " (reversed)", label)
                res = f()
                if S.alive(what, loc):
                    S.is_point(what, res, k, want, loc)
            S.unchanged("%s, one after the other: the operands stay as they are" % cls, kind, list(zip((p, q, r), ws)), loc)
            G = S.group(kind)
            for label, f, want in (("weighted sum of p, q", lambda: sc.m(G, "wsum", sc.list(n, m), sc.list(p, q)), U.plus(U.times(n, ws[0]), U.times(m, ws[1]))),
                                   ("weighted sum of q, p", lambda: sc.m(G, "wsum", sc.list(n, m), sc.list(q, p)), U.plus(U.times(n, ws[1]), U.times(m, ws[0]))),
                                   ("weighted sum of p twice", lambda: sc.m(G, "wsum", sc.list(n, m), sc.list(p, p)), U.plus(U.times(n, ws[0]), U.times(m, ws[0]))),
                                   ("sum of p, p, r", lambda: sc.m(G, "sum", sc.list(p, p, r)), U.plus(U.plus(ws[0], ws[0]), ws[2])))[::order]:
                if not isinstance(sc.prog.lookup(sc.I.obj(G).cls, "sum" if label.startswith("sum") else "wsum"), Fn):
                    continue
                res = f()
                what = "%s, one after the other: %s" % (cls, label)
                if S.alive(what, loc):
                    S.is_point(what, res, kind, want, loc)


LENGTHS = (0, 1, 2, 3, 4, 5, 9, 17)


@rule("C15", "sums and weighted sums use every term exactly once")
def sums(ck):
    for kind, cls, _ in KINDS:
        gcls = kind + "Group"
        for n in LENGTHS + ((33, 65, 129) if ck.tier == "thorough" else ()):
            S = Setting(ck)
            sc, U = S.sc, Ops(kind)
            G = S.group(kind)
            ws = [S.wrapped(kind, "p%d" % i) for i in range(n)]
            ks = [sc.num("k%d" % i) if n < 4 else C(2 * i + 1) for i in range(n)]
            for warm in (False, True) if n in (0, 1, 3) else (True,):
                pts = [S.pt(kind, "p%d" % i) for i in range(n)]
                if warm:
                    sc.m(G, "infinite")
                    sc.m(G, "generator")
                loc = loc_of(ck, gcls, "sum")
                what = "%s: sum of %d points" % (kind, n)
                tot = wtot = U.zero
                for w, k in zip(ws, ks):
                    tot = U.plus(tot, w)
                    wtot = U.plus(wtot, U.times(k, w))
                for form in ("list", "tuple") if n < 4 else ("list",):
                    r = sc.m(G, "sum", sc.list(*pts) if form == "list" else raw("lit", *pts))
                    if S.alive(what, loc):
                        S.is_point(what, r, kind, tot, loc)
                S.unchanged(what + " leaves the points alone", kind, list(zip(pts, ws)), loc)
                loc = loc_of(ck, gcls, "wsum")
                what = "%s: weighted sum of %d points" % (kind, n)
                r = sc.m(G, "wsum", sc.list(*ks), sc.list(*pts))
                if S.alive(what, loc):
                    S.is_point(what, r, kind, wtot, loc)
                S.unchanged(what + " leaves the points alone", kind, list(zip(pts, ws)), loc)
                neutral(ck, S, kind, "after a sum of %d points" % n)
            if n in (2, 3):
                # weights may repeat, vanish or be negative
                for cs in ((0, 1, 2), (1, 1, 1), (-1, 0, 0), (0, 0, 0)):
                    want = U.zero
                    for c, w in zip(cs, ws):
                        want = U.plus(want, U.times(C(c), w))
                    pts = [S.pt(kind, "p%d" % i) for i in range(n)]
                    what = "%s: weighted sum with weights %s" % (kind, list(cs[:n]))
                    r = sc.m(G, "wsum", sc.list(*[C(c) for c in cs[:n]]), sc.list(*pts))
                    if S.alive(what, loc):
                        S.is_point(what, r, kind, want, loc)
                p = S.pt(kind, "p0")
                what = "%s: weighted sum with the same point %d times" % (kind, n)
                r = sc.m(G, "wsum", sc.list(*ks), sc.list(*[p] * n))
                if S.alive(what, loc):
                    want = U.zero
                    for k in ks:
                        want = U.plus(want, U.times(k, ws[0]))
                    S.is_point(what, r, kind, want, loc)
        for a, b in ((0, 1), (1, 0), (2, 3), (3, 2), (1, 5), (5, 1)):
            S = Setting(ck)
            sc = S.sc
            what = "%s: %d weights for %d points are refused" % (kind, a, b)
            sc.m(S.group(kind), "wsum", sc.list(*[sc.num("k%d" % i) for i in range(a)]),
                 sc.list(*[S.pt(kind, "p%d" % i) for i in range(b)]))
            if sc.alive():
                ck.bad(what, "no exception is raised", loc_of(ck, gcls, "wsum"))
            else:
                ck.ok(what)


def neutral(ck, S, kind, when):
    """The cached neutral element and generator are what they should be."""
    sc = S.sc
    gen = {"G1": lambda: sc.m(S.bpgp, "gen1"), "G2": lambda: sc.m(S.bpgp, "gen2")}
    loc = loc_of(ck, kind + "Group", "infinite", "generator")
    S.is_point("%s: neutral element %s" % (kind, when), sc.m(S.group(kind), "infinite"), kind, Ops(kind).zero, loc)
    if kind == "GT":
        want = t.pair(sc.r(gen["G1"]()), sc.r(gen["G2"]()))
    else:
        want = sc.r(gen[kind]())
    g = sc.m(S.group(kind), "generator")
    S.is_point("%s: generator %s" % (kind, when), g, kind, want, loc)


@rule("C15", "groups: neutral element, generator, order, equality")
def groups(ck):
    orders = [("gen first", ("generator", "infinite")), ("inf first", ("infinite", "generator"))]
    for kind, cls, _ in KINDS:
        for label, ms in orders:
            for before in ("G1", "G2", "GT", None):
                S = Setting(ck)
                sc = S.sc
                if before:
                    # other groups may have been used before
                    for m in ms:
                        sc.m(S.group(before), m)
                for m in ms:
                    sc.m(S.group(kind), m)
                neutral(ck, S, kind, "(%s, after use of %s)" % (label, before))
        S = Setting(ck)
        sc = S.sc
        loc = loc_of(ck, kind + "Group", "order")
        ck.same("%s: order" % kind, sc.r(sc.m(S.group(kind), "order")), raw("ord", S.bpgp), loc)
    S = Setting(ck)
    sc = S.sc
    gs = content(sc.I.seq(sc.m(S.bp, "groups")))
    what = "groups() returns G1, G2, GT"
    if gs.op == "lit" and len(gs.a) == 3 and all(g is S.group(k) for g, (k, _, _) in zip(gs.a, KINDS)):
        ck.ok(what)
    else:
        ck.bad(what, short(sc.r(gs), 100), ck.at("BilinearGroupPair.groups"))
    same = sc.new("BilinearGroupPair", S.bpgp)
    other_raw = S.raw_setting("b")
    other = sc.new("BilinearGroupPair", other_raw)
    for k1, _, _ in KINDS:
        for k2, _, _ in KINDS:
            for label, bp in (("of the same setting", S.bp), ("of an equal setting", same), ("of another setting", other)):
                got = truth(sc.r(sc.I.equal(S.group(k1), sc.get(bp, k2), None)))
                want = FALSE if k1 != k2 else TRUE if bp is not other else sc.r(sc.I.equal(S.bpgp, other_raw, None))
                ck.same("%s == %s %s" % (k1, k2, label), got, truth(want), loc_of(ck, k1 + "Group", "__eq__"))
    for k, cls, _ in KINDS:
        p = S.pt(k, "p")
        what = "%s belongs to %s of its setting" % (cls, k)
        (ck.ok(what) if sc.get(p, "group") is S.group(k) else ck.bad(what, "", loc_of(ck, cls, "__init__")))
    s = sym("string")
    for k in ("G1",):
        r = sc.m(S.group(k), "hash_to_point", s)
        S.is_point("%s: hash_to_point wraps the hash" % k, r, k, sc.r(sc.m(S.bpgp, "hashG1", s)), loc_of(ck, "G1Group", "hash_to_point"))


@rule("C15", "the pairing of wrapped points wraps their pairing")
def pairing_(ck):
    for p, q in (("p", "q"), ("q", "p"), ("r", "r2")):
        S = Setting(ck)
        sc = S.sc
        a, b = S.pt("G1", p), S.pt("G2", q)
        wa, wb = S.wrapped("G1", p), S.wrapped("G2", q)
        what = "pairing of %s and %s" % (p, q)
        loc = loc_of(ck, "G1Point", "pair")
        r = sc.m(a, "pair", b)
        if S.alive(what, loc):
            S.is_point(what, r, "GT", t.pair(wa, wb), loc)
        S.unchanged(what + " leaves the first operand alone", "G1", [(a, wa)], loc)
        S.unchanged(what + " leaves the second operand alone", "G2", [(b, wb)], loc)


@rule("C15", "equality and representation are those of the wrapped points")
def equality(ck):
    heads = {}
    for kind, cls, _ in KINDS:
        S = Setting(ck)
        sc = S.sc
        wp, wq = S.wrapped(kind, "p"), S.wrapped(kind, "q")
        p, q, p2 = S.pt(kind, "p"), S.pt(kind, "q"), S.pt(kind, "p")
        loc = loc_of(ck, cls, "__eq__")
        ck.same("%s: p == q iff the wrapped points are equal" % cls, truth(sc.r(sc.I.compare(ast.Eq(), p, q, None))), eq(wp, wq), loc)
        ck.same("%s: p != q iff the wrapped points differ" % cls, truth(sc.r(sc.I.compare(ast.NotEq(), p, q, None))), NOT(eq(wp, wq)), loc)
        ck.same("%s: two wrappers of one point are equal" % cls, truth(sc.r(sc.I.compare(ast.Eq(), p, p2, None))), TRUE, loc)
        loc = loc_of(ck, cls, "__repr__", "export")
        other = sc.new("BilinearGroupPair", S.raw_setting("b"))
        p3 = sc.new(cls, wp, other)
        reps = [sc.r(sc.I.call(raw("extf", "builtins.repr"), [x], {})) for x in (p, p2, p3)]
        ck.same("%s: representation of equal points" % cls, reps[1], reps[0], loc)
        ck.same("%s: representation does not depend on the wrapper" % cls, reps[2], reps[0], loc)
        strs = sc.r(sc.I.call(raw("extf", "builtins.str"), [p], {}))
        for label, x in (("representation", reps[0]), ("text", strs)):
            bad = [y for y in t.subterms(x) if y.op in ("addr", "pyhash", "rand", "time")]
            what = "%s: %s depends on the point only" % (cls, label)
            (ck.bad(what, short(bad[0]), loc) if bad else ck.ok(what))
            e = sc.r(sc.m(wp, "export"))
            b = binds_export(x, e)
            what = "%s: %s holds the encoding of the whole point" % (cls, label)
            if b:
                ck.ok(what)
            elif b is None:
                ck.dunno(what, short(x))
            else:
                ck.bad(what, short(x), loc)
        # which constant surrounds the point
        heads[cls] = tuple(y for y in (reps[0].a if reps[0].op == "strcat" else ()) if isinstance(y, T) and y.op == "c")
        loc = loc_of(ck, cls, "export")
        ck.same("%s: export() is the encoding of the wrapped point" % cls, sc.r(sc.m(p, "export")), sc.r(sc.m(wp, "export")), loc)
        if kind != "GT":
            for f in (1, 2):
                ck.same("%s: export(%d) passes the form on" % (cls, f), sc.r(sc.m(p, "export", C(f))), sc.r(sc.m(wp, "export", C(f))), loc)
    what = "representations name the kind of point"
    if len(set(heads.values())) == 3:
        ck.ok(what)
    elif all(heads.values()):
        ck.bad(what, short(heads), ck.at("G1Point.__repr__", "G2Point.__repr__", "AdditivePoint.__repr__"))
    else:
        ck.dunno(what, short(heads))


TEXT = {"hex", "hexlify", "b64encode", "str", "repr"}


def binds_export(x, e):
    """The whole of e enters x through injective conversions only."""
    if x is e:
        return True
    if x.op in ("strcat", "str", "repr", "concat", "utf8", "cat"):
        return merge_all(binds_export(y, e) for y in x.a if isinstance(y, T))
    if x.op == "mcall" and x.a[1] in TEXT and len(call_args(x)) == 0:
        return binds_export(x.a[0], e)
    if x.op == "call" and isinstance(x.a[0], str) and x.a[0].split(".")[-1] in TEXT:
        return merge_all(binds_export(y, e) for y in x.a[1:] if isinstance(y, T))
    if x.op == "L":
        return binds_export(x.a[-1], e)
    if x.op == "lit" and e.op != "lit" and any(y is e for y in t.subterms(x)):
        # some of its characters, but how many it has is not known
        return False if all(y.op == "c" or y.op == "item" and t.is_int(y.a[1]) for y in x.a) else None
    if any(y is e for y in t.subterms(x)):
        return False if x.op in ("slice", "item", "cut", "digest", "hexdigest", "pyhash", "mod", "h2n") else None
    return False


def merge_all(bs):
    bs = list(bs)
    return True if True in bs else None if None in bs else False


# ---------------------------------------------------------------------------------------------
# coders


def registrations(ck):
    """What the modules of the program register when they are imported."""
    sc = ck.scn()
    out = []
    for name, m in sorted(sc.prog.modules.items()):
        stmts = [s for s in m.tree.body if isinstance(s, (ast.Expr, ast.For, ast.If, ast.With)) and "register_coders" in ast.dump(s)]
        if not stmts:
            continue
        n0 = sc.mark()
        sc.I.frames.append(Frame(9000 + len(out), Fn("<module %s>" % name, ast.parse("def f(): pass").body[0], m), m))
        for s in stmts:
            sc.I.exec(s)
        sc.I.frames.pop()
        for e in sc.events(n0, name="register_coders"):
            out.append((name, e))
    return sc, out


@rule("C16", "each kind of pairing point has its own code, encoder and decoder")
def coders(ck):
    sc, regs = registrations(ck)
    loc = ", ".join(sorted({e.where for _, e in regs})) or ck.at("pt_enc")
    codes = {}
    seen = {}
    for mod_, e in regs:
        args = list(e.args)
        for k, name in enumerate(("cls", "num", "enc_func", "dec_func")):
            if len(args) <= k and name in e.kw:
                args.append(e.kw[name])
        if len(args) != 4:
            ck.dunno("registration at %s" % e.where, short(args))
            continue
        c, num, enc, dec = args
        cname = sc.prog.classes[c.a[0]].name if c.op == "cls" else short(c)
        what = "%s is registered unconditionally" % cname
        if e.guard is not TRUE:
            ck.bad(what, "only if %s" % short(e.guard, 100), e.where)
        else:
            ck.ok(what)
        what = "the code of %s is its own" % cname
        if not t.is_int(num):
            ck.dunno(what, short(num))
        elif not 3 <= num.a[1] <= 127:
            ck.bad(what, "code %s is taken by the library or out of range" % num, e.where)
        elif num in codes:
            ck.bad(what, "code %s is used for %s, too" % (num, codes[num]), e.where)
        else:
            ck.ok(what)
        codes[num] = cname
        if cname in seen:
            ck.bad("%s is registered once" % cname, "registered twice", e.where)
        seen[cname] = (enc, dec, e)
    for kind, cls, elem in KINDS:
        what = "%s has a coder" % cls
        if cls not in seen:
            ck.bad(what, "none is registered", ck.at(cls))
            continue
        ck.ok(what)
        enc, dec, e = seen[cls]
        S = Setting(ck, sc=sc)
        for label in ("p",):
            w = S.wrapped(kind, label)
            p = S.pt(kind, label)
            data = S.sc.call(enc, p)
            r = S.sc.call(dec, data)
            what = "%s: decoding an encoded point gives the point" % cls
            if r.op != "ref":
                (ck.dunno if t.has_unknown(r) else ck.bad)(what, short(S.sc.r(r), 150))
                continue
            o = S.sc.I.obj(r)
            if o.cls is None or o.cls.name != cls:
                ck.bad(what, "the decoder makes a %s" % (o.cls and o.cls.name), e.where)
                continue
            bp = S.sc.get(r, "bp")
            if S.sc.get(r, "group") is not S.sc.get(bp, kind):
                ck.bad(what, "the decoded point belongs to another group", e.where)
                continue
            x = S.sc.r(S.sc.get(r, "pt"))
            # the library reads back what it exported
            exp = S.sc.r(S.sc.m(w, "export"))
            if x.op == "call" and isinstance(x.a[0], str) and x.a[0].endswith(".from_bytes"):
                got = x.a[0].split(".")[-2]
                if got != elem:
                    ck.bad(what, "bytes of a %s are read as %s" % (elem, got), e.where)
                    continue
                args = [y for y in x.a[1:] if isinstance(y, T)]
                if any(t.has_unknown(y) for y in args):
                    ck.dunno(what, short(x))
                    continue
                if strip_occ(args[0]) is not strip_occ(exp):
                    ck.bad(what, "reads %s" % short(args[0], 150), e.where)
                    continue
                g = S.sc.r(S.sc.get(bp, "bpgp"))
                if len(args) > 1 and strip_occ(args[1]) is strip_occ(g):
                    ck.ok(what)
                else:
                    ck.bad(what, "the decoded point belongs to another setting", e.where)
            elif t.has_unknown(x):
                ck.dunno(what, short(x))
            else:
                ck.bad(what, "wraps %s" % short(x, 150), e.where)


# ---------------------------------------------------------------------------------------------
# proofs


@rule("C16", "a decoded proof has every field of the encoded one in its place")
def fields(ck):
    loc = ck.at("NIZK.serialize", "NIZK.deserialize")
    for label, pre in (("points", lambda sc: sc.point("P")), ("none", lambda sc: NONE), ("list", lambda sc: sc.list(NONE, sc.point("P"), sc.num("u"))),
                       ("dict", lambda sc: dict_of(sc, {"Cs": sc.list(sc.point("P")), "rand": sc.num("u")}))):
        for rl, resp in (("list", lambda sc: sc.list(sc.num("z0"), sc.num("z1"), sc.num("z2"))),
                         ("or", lambda sc: raw("lit", sc.list(sc.num("c0"), sc.num("c1")), sc.list(sc.list(sc.num("z0")), sc.list(sc.num("z1"))))),
                         ("empty", lambda sc: sc.list())):
            for sh in ("bytes", "none"):
                sc = ck.scn()
                vals = {"challenge": sc.num("c"), "responses": resp(sc), "precommitment": pre(sc), "stmt_hash": sym("sh") if sh == "bytes" else NONE}
                n = sc.new("NIZK", **vals)
                raw_ = sc.m(n, "serialize")
                d = sc.call(sc.get(sc.K("NIZK"), "deserialize"), raw_)
                for f, v in vals.items():
                    what = "precommitment %s, responses %s, hash %s: %s" % (label, rl, sh, f)
                    if not sc.alive():
                        ck.bad(what, "fails" + raised(sc), loc)
                        break
                    ck.same(what + " is decoded as encoded", listed(sc.r(sc.get(d, f))), listed(sc.r(v)), loc)
                    ck.same(what + " is left alone by encoding", sc.r(sc.get(n, f)), sc.r(v), loc)


def dict_of(sc, kv):
    d = sc.dict()
    for k, v in kv.items():
        sc.I.setitem(d, C(k), v, None)
    return d


def listed(x):
    """Tuples as lists."""
    if x.op in ("L", "lit"):
        c = content(x)
        if c.op == "lit":
            return raw("L", raw("lit", *[listed(y) for y in c.a]))
    return x


@rule("C16", "honest proofs verify after encoding and decoding")
def transported(ck):
    loc = ck.at("NIZK.serialize", "NIZK.deserialize")
    for name in names(ck, pick=lambda n: not n.startswith("tree") or ck.tier == "thorough"):
        with ck.part(name):
            for k in choices(name)[:2]:
                sc = ck.scn()
                sc.I.force = k
                w = World(sc)
                f = SKELETONS[name][0]
                P = f(Side(w, True))
                nizk = sc.m(P.obj, "prove")
                V = f(Side(w_like(w), False))
                d = sc.call(sc.get(sc.K("NIZK"), "deserialize"), sc.m(nizk, "serialize"))
                acc = point_norm(sc, sc.accept(sc.m(V.obj, "verify", d)))
                what = "%s: honest proof verifies after transport (choice %d)" % (name, k)
                if acc is FALSE:
                    ck.bad(what, "never accepted" + raised(sc), loc)
                else:
                    ck.holds(what, acc, where=loc)
