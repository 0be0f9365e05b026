"""Seeded generators, evaluation of expressions, and big-number helpers (C21)."""

import math

from .common import *
from .protocol import raised

UTILS = "zksk.utils.groups"
STRONG = {"sha224": 28, "sha256": 32, "sha384": 48, "sha512": 64, "sha3_224": 28, "sha3_256": 32, "sha3_384": 48, "sha3_512": 64,
          "blake2b": 64, "blake2s": 32}
WRAP = {"lit", "L", "enc", "str", "repr", "utf8", "strcat", "fmt", "hexdigest", "tuple", "struct", "pair"}


def nbytes(x):
    """Length of a byte string, None if unknown; a hash the collisions of which are known has length 0."""
    x = content(x)
    if x.op == "rand":
        n = x.a[1]
        if x.a[0].a[1] in ("secrets.token_bytes", "os.urandom"):
            return n.a[1] if isinstance(n, T) and t.is_int(n) else n if isinstance(n, int) else None
        return None
    if x.op == "digest":
        name = x.a[0].a[1] if isinstance(x.a[0], T) and x.a[0].op == "c" else x.a[0]
        return STRONG.get(str(name), 0 if str(name) in ("md5", "sha1", "md4") else None)
    if x.op == "cut":
        n = nbytes(x.a[0])
        lo, hi = x.a[1], x.a[2]
        if n is None or not all(y is NONE or isinstance(y, T) and t.is_int(y) for y in (lo, hi)):
            return None
        return len(range(n)[slice(None if lo is NONE else lo.a[1], None if hi is NONE else hi.a[1])])
    return None


def distinct(a, b):
    """The inputs are different whatever the symbols stand for; hashes are taken as free of collisions. None if unknown."""
    if a is b:
        return False
    a, b = content(a), content(b)
    if a.op == "c" and b.op == "c":
        return a.a != b.a
    if a.op == b.op == "cut":
        n = nbytes(a)
        if a.a[1:] == b.a[1:] and n is not None:
            return distinct(a.a[0], b.a[0]) if n >= 8 else False
        return None
    if a.op == b.op == "digest":
        return distinct(a.a[1], b.a[1]) if a.a[0] == b.a[0] else None
    if a.op == b.op and a.op in WRAP and len(a.a) == len(b.a):
        rs = [distinct(x, y) for x, y in zip(a.a, b.a) if isinstance(x, T) and isinstance(y, T)]
        return True if True in rs else None if None in rs else False
    d = sub(a, b) if all(x.op in ("c", "int", "poly") or x in t.NUMS for x in (a, b)) else None
    if d is not None and t.is_int(d):
        return d.a[1] != 0
    if a.op in ("rand",) and b.op == "rand":
        return True
    return None


def drawn(x):
    return [y for y in t.subterms(x) if y.op in ("rand", "rng")]


IMPURE = ("rand", "rng", "time", "addr", "pyhash", "environ")


def check_inputs(ck, what, ps, group, seeded, bits, loc):
    """Points are hashed from different inputs of enough bytes, to the group asked for."""
    need = math.ceil(bits / 8)
    ins = []
    for k, p in enumerate(ps):
        if p.op != "h2p":
            return ck.dunno(what, short(p)) if t.has_unknown(p) else ck.bad(what, "generator %d is %s" % (k, short(p, 150)), loc)
        if p.a[0] is not group:
            return ck.bad(what, "generator %d is in the group %s" % (k, short(p.a[0], 100)), loc)
        x = p.a[1]
        if seeded:
            odd = [y for y in t.subterms(x) if y.op in IMPURE]
            if odd:
                return ck.bad(what, "generator %d depends on %s" % (k, short(odd[0], 100)), loc)
        elif not drawn(x):
            return ck.bad(what, "generator %d is hashed from %s, which is not random" % (k, short(x, 150)), loc)
        n = nbytes(x)
        if n is not None and n < need:
            return ck.bad(what, "generator %d is hashed from %d instead of %d random or hashed bytes" % (k, n, need), loc)
        if n is None and not seeded:
            return ck.dunno(what, short(x, 150))
        ins.append(x)
    unsure = None
    for i in range(len(ins)):
        for j in range(i):
            d = distinct(ins[i], ins[j])
            if d is False:
                return ck.bad(what, "generators %d and %d are hashed from the same input %s" % (j, i, short(ins[i], 150)), loc)
            if d is None:
                unsure = (ins[j], ins[i])
    if unsure:
        return ck.dunno(what, "%s / %s" % (short(unsure[0], 150), short(unsure[1], 150)))
    return ck.ok(what, short(ps[:2], 200))


def the_groups(sc):
    d = sc.F("zksk.consts", "DEFAULT_GROUP")
    return [("the default group", [], {}, d), ("a given group", [raw("call", "petlib.ec.EcGroup", C(415))], {},
                                               raw("call", "petlib.ec.EcGroup", C(415))),
            ("a group given by name", [], {"group": raw("call", "petlib.ec.EcGroup", C(415))}, raw("call", "petlib.ec.EcGroup", C(415))),
            ("no group", [], {"group": NONE}, d)]


def seeds(sc):
    return [("default seed", {}, True), ("seed 0", {"seed": ZERO}, True), ("seed 1", {"seed": ONE}, True),
            ("a large seed", {"seed": C(2 ** 70)}, True), ("any seed", {"seed": sc.num("seed")}, True), ("no seed", {"seed": NONE}, False)]


@rule("C21", "generators are hashed to the group from different inputs")
def generators(ck):
    loc = ck.at("make_generators", "get_random_point")
    for gi in range(4):
        for si in range(6):
            for n in (0, 1, 2, 3, 7, 20):
                for bits in (256, 128, 100, 512) if n == 3 and si in (2, 5) else (256,):
                    sc = ck.scn()
                    label, args, kw, group = the_groups(sc)[gi]
                    sl, skw, seeded = seeds(sc)[si]
                    kw = dict(kw, **skw)
                    if bits != 256:
                        kw["random_bits"] = C(bits)
                    what = "%d generators of %s with %s%s" % (n, label, sl, "" if bits == 256 else ", %d bits" % bits)
                    f = sc.F(UTILS, "make_generators")
                    r = sc.call(f, C(n), *args, **kw)
                    if not sc.alive() or sc.pc is not TRUE:
                        ck.bad(what, "fails" + raised(sc), loc)
                        continue
                    try:
                        ps = sc.items(r)
                    except AnalysisBroken as e:
                        ck.dunno(what, str(e))
                        continue
                    ps = [sc.r(p) for p in ps]
                    if len(ps) != n:
                        ck.bad(what, "there are %d" % len(ps), loc)
                        continue
                    check_inputs(ck, what, ps, group, seeded, bits, loc)
                    if n not in (3,):
                        continue
                    again = [sc.r(p) for p in sc.items(sc.call(f, C(n), *args, **kw))]
                    w2 = what + (": are the same the second time" if seeded else ": are others the second time")
                    if all(t.has_unknown(p) for p in ps + again):
                        ck.dunno(w2)
                    elif seeded == all(x is y for x, y in zip(ps, again)):
                        ck.ok(w2)
                    else:
                        ck.bad(w2, "%s, %s" % (short(ps[0], 150), short(again[0], 150)), loc)
                    if seeded and bits == 256:
                        more = [sc.r(p) for p in sc.items(sc.call(f, C(n + 2), *args, **kw))]
                        w2 = what + ": begin the longer list"
                        if more[:n] == ps:
                            ck.ok(w2)
                        else:
                            ck.bad(w2, "%s, %s" % (short(ps, 150), short(more, 150)), loc)
    # any number of generators
    sc = ck.scn()
    n, seed = sc.num("n"), sc.num("seed")
    g = raw("call", "petlib.ec.EcGroup", C(415))
    r = sc.seq(sc.call(sc.F(UTILS, "make_generators"), n, g, seed=seed))
    ck.same("any number of generators: there are as many as asked for", length(r), n, loc)
    check_inputs(ck, "any number of generators: hashed from different inputs", [item(r, C(i)) for i in range(8)], g, True, 256, loc)
    # different seeds
    for a, b in ((ZERO, ONE), (ONE, C(2)), (C(42), C(41)), (ONE, C(-1)), (C(5), C(5 + 2 ** 64)), (ONE, C(257)), (ZERO, C(256))):
        sc = ck.scn()
        ps = [sc.r(sc.call(sc.F(UTILS, "get_random_point"), seed=x)) for x in (a, b)]
        check_inputs(ck, "points with the seeds %s and %s are different" % (a, b), ps, sc.F("zksk.consts", "DEFAULT_GROUP"), True, 256, loc)


@rule("C21", "random points are hashed to the group from enough random bytes")
def points(ck):
    loc = ck.at("get_random_point")
    for gi in range(4):
        for si in range(1, 6):
            for bits in (256, 80, 129, 512):
                sc = ck.scn()
                label, args, kw, group = the_groups(sc)[gi]
                sl, skw, seeded = seeds(sc)[si]
                kw = dict(kw, random_bits=C(bits), **skw)
                what = "point of %s with %s and %d bits" % (label, sl, bits)
                f = sc.F(UTILS, "get_random_point")
                ps = [sc.r(sc.call(f, *args, **kw))]
                if sc.pc is not TRUE:
                    ck.bad(what, "fails" + raised(sc), loc)
                    continue
                if not seeded:
                    ps.append(sc.r(sc.call(f, *args, **kw)))
                check_inputs(ck, what, ps, group, seeded, bits, loc)


@rule("C21", "random numbers are below the power of two")
def numbers(ck):
    loc = ck.at("get_random_num")
    sc = ck.scn()
    b = sc.num("bits")
    for bits in [C(k) for k in (1, 2, 8, 64, 128, 256, 1024)] + [b]:
        sc = ck.scn()
        x, y = (sc.r(sc.call(sc.F(UTILS, "get_random_num"), bits)) for _ in range(2))
        what = "random number of %s bits" % bits
        rs = drawn(x)
        if sc.pc is not TRUE or len(rs) != 1 or rs[0] is not x:
            # possibly computed from drawn bytes; the distribution of sums, products and the like is none of a single draw
            if t.has_unknown(x) or sc.pc is TRUE and len(rs) == 1 and rs[0].a[0].a[1] != "bn.random":
                ck.dunno(what, short(x))
            else:
                ck.bad(what, "is %s%s" % (short(x, 150), raised(sc)), loc)
            continue
        bound = x.a[1]
        if isinstance(bound, T):
            ck.same(what + ": all numbers below 2^bits", bound, t.power(C(2), bits), loc)
        else:
            ck.dunno(what, short(x))
        if x is y:
            ck.bad(what + " is drawn anew", short(x), loc)
        else:
            ck.ok(what + " is drawn anew")


@rule("C21", "sums of arrays add every element")
def sums(ck):
    loc = ck.at("sum_bn_array")
    for n in list(range(0, 18)) + [33]:
        for kind in ("list", "tuple"):
            for how in ("numbers", "constants", "equal numbers"):
                if n > 9 and how == "constants" or kind == "tuple" and n not in (0, 1, 2, 5, 9):
                    continue
                for m in ("m", 7, 2 ** 128):
                    sc = ck.scn()
                    mv = sc.num("m") if m == "m" else C(m)
                    if how == "numbers":
                        xs = [sc.num("a%d" % i) for i in range(n)]
                    elif how == "constants":
                        xs = [C((7 * i * i + 11 * i - 5) * (3 ** (i % 4))) for i in range(n)]
                    else:
                        xs = [sc.num("a")] * n
                    arr = sc.list(*xs) if kind == "list" else raw("lit", *xs)
                    what = "sum of a %s of %d %s modulo %s" % (kind, n, how, m)
                    r = sc.r(sc.call(sc.F(UTILS, "sum_bn_array"), arr, mv))
                    if sc.pc is not TRUE:
                        ck.bad(what, "fails" + raised(sc), loc)
                        continue
                    tot = ZERO
                    for x in xs:
                        tot = add(tot, x)
                    ck.same(what, r, mod(tot, mv), loc)
                    if kind == "list" and sc.items(arr) != xs:
                        ck.bad(what + " leaves the list alone", short(sc.r(arr)), loc)
    sc = ck.scn()
    A, m = sym("A"), sc.num("m")
    r = sc.r(sc.call(sc.F(UTILS, "sum_bn_array"), A, m))
    v = fresh_var()
    ck.same("sum of an array of any length", r, mod(seqsum(length(A), lam(v, item(A, v))), m), loc)


@rule("C21", "conversions and default lookups keep the value")
def conversions(ck):
    loc = ck.at("ensure_bn")
    for x in [C(k) for k in (0, 1, -1, 2 ** 64, 2 ** 256 + 1, -(2 ** 200))] + [sym("x")]:
        sc = ck.scn()
        if x.op != "c" and not t.is_int(x):
            t.NUMS.add(x)
        r = sc.r(sc.call(sc.F(UTILS, "ensure_bn"), x))
        ck.same("number made from %s" % x, r, x, loc)
    loc = ck.at("get_default_attr")
    for old in (None, NONE, ZERO, FALSE, C(""), sym("v")):
        for new in (NONE, C(5)):
            sc = ck.scn()
            try:
                f = sc.F("zksk.utils.misc", "get_default_attr")
            except AnalysisBroken:
                return
            o = sc.new("Secret", value=ZERO, name=C("o"))
            if old is not None:
                sc.set(o, "thing", old)
            r = sc.r(sc.call(f, o, C("thing"), new))
            want = new if old is None else old
            what = "attribute %s, default %s" % ("missing" if old is None else old, new)
            ck.same(what, r, want, loc)
            r = sc.r(sc.call(f, o, C("thing"), C(77)))
            ck.same(what + ": is set afterwards", r, want, loc)


# ---------------------------------------------------------------------------------------------
# expressions


def weighted(vs, gs):
    tot = ZERO
    for v, g in zip(vs, gs):
        tot = add(tot, mul(v, g))
    return tot


@rule("C21", "expressions evaluate to the weighted sum of all their terms")
def evaluation(ck):
    loc = ck.at("Expression.eval")
    for n in range(1, 10):
        for how in ("distinct", "recurring", "zero"):
            sc = ck.scn()
            vs = [sc.num("v%d" % (i % 2 if how == "recurring" else i)) for i in range(n)]
            if how == "zero":
                vs[n // 2] = ZERO
            ss = [sc.secret("s%d" % (i % 2 if how == "recurring" else i), vs[i]) for i in range(n)]
            if how == "recurring":
                ss = [ss[i % 2] for i in range(n)]
            gs = [sc.point("g%d" % i) for i in range(n)]
            e = sc.term(*zip(ss, gs))
            what = "value of %d terms%s" % (n, {"distinct": "", "recurring": ", recurring secrets", "zero": ", one value zero"}[how])
            r = sc.r(sc.m(e, "eval"))
            if sc.pc is not TRUE:
                ck.bad(what, "fails" + raised(sc), loc)
                continue
            ck.same(what, r, weighted(vs, gs), loc)
            r = sc.r(sc.m(e, "eval"))
            ck.same(what + ": the same the second time", r, weighted(vs, gs), loc)
            same = [x for x, y in zip(sc.items(sc.get(e, "secrets")), ss) if x is not y]
            same += [x for x, y in zip(sc.items(sc.get(e, "bases")), gs) if sc.r(x) is not y]
            if same:
                ck.bad(what + ": terms stay as they were", short(same), loc)
            else:
                ck.ok(what + ": terms stay as they were")
        for k in range(n):
            sc = ck.scn()
            ss = [sc.secret("s%d" % i, None if i == k else sc.num("v%d" % i)) for i in range(n)]
            e = sc.term(*[(s, sc.point("g%d" % i)) for i, s in enumerate(ss)])
            r = sc.m(e, "eval")
            what = "value of %d terms, secret %d unknown: refused" % (n, k)
            es = sc.events(kind="raise")
            if sc.alive():
                ck.bad(what, "evaluates to %s" % short(sc.r(r), 150), loc)
            elif es and es[-1].name != "IncompleteValuesError":
                ck.bad(what, "with %s instead of IncompleteValuesError" % es[-1].name, loc)
            else:
                ck.ok(what)
    # values set later count
    for n, again in ((1, False), (3, False), (1, True), (3, True)):
        sc = ck.scn()
        ss = [sc.secret("s%d" % i, sc.num("old%d" % i) if i else None) for i in range(n)]
        gs = [sc.point("g%d" % i) for i in range(n)]
        e = sc.term(*zip(ss, gs))
        vs = [sc.num("v%d" % i) for i in range(n)]
        d = sc.dict()
        for s, v in zip(ss, vs):
            sc.I.setitem(d, s, v, None)
        if again:
            for s in ss[:1]:
                sc.set(s, "value", sc.num("first"))
            sc.m(e, "eval")
        sc.call(sc.F("zksk.expr", "update_secret_values"), d)
        ck.same("value of %d terms after updating the secrets%s" % (n, ", evaluated before" if again else ""), sc.r(sc.m(e, "eval")), weighted(vs, gs), loc)
    sc = ck.scn()
    e, S, B, n = linear(sc)
    r = sc.r(sc.m(e, "eval"))
    v = fresh_var()
    ck.same("value of any number of terms", r, seqsum(n, lam(v, mul(raw("attr", item(S, v), "value"), item(B, v)))), loc)


@rule("C21", "weighted sums of secrets have all terms in order")
def wsums(ck):
    loc = ck.at("wsum_secrets")
    for n in list(range(1, 10)) + [17]:
        for how in ("distinct", "recurring secret", "recurring base"):
            for kind in ("list", "tuple"):
                if kind == "tuple" and n not in (1, 2, 5):
                    continue
                sc = ck.scn()
                ss = [sc.secret("s%d" % i) for i in range(n)]
                gs = [sc.point("g%d" % i) for i in range(n)]
                if how == "recurring secret":
                    ss[-1] = ss[0]
                elif how == "recurring base":
                    gs[-1] = gs[0]
                mk = (lambda xs: sc.list(*xs)) if kind == "list" else (lambda xs: raw("lit", *xs))
                a, b = mk(ss), mk(gs)
                e = sc.call(sc.F("zksk.expr", "wsum_secrets"), a, b)
                what = "weighted sum of a %s of %d, %s" % (kind, n, how)
                if sc.pc is not TRUE:
                    ck.bad(what, "fails" + raised(sc), loc)
                    continue
                try:
                    got = sc.items(sc.get(e, "secrets")), [sc.r(x) for x in sc.items(sc.get(e, "bases"))]
                except AnalysisBroken as x:
                    ck.dunno(what, str(x))
                    continue
                if got[0] == ss and got[1] == gs:
                    ck.ok(what)
                else:
                    ck.bad(what, "has the terms %s" % short([sc.r(x) for x in got[0]] + got[1], 200), loc)
                if kind == "list" and (sc.items(a) != ss or [sc.r(x) for x in sc.items(b)] != gs):
                    ck.bad(what + " leaves the lists alone", "", loc)


@rule("C21", "updating secrets sets exactly the given values")
def updates(ck):
    loc = ck.at("update_secret_values")
    for n in (0, 1, 2, 3, 5):
        sc = ck.scn()
        ss = [sc.secret("s%d" % i, sc.num("old%d" % i) if i % 2 else None) for i in range(n + 2)]
        vs = [sc.num("v%d" % i) if i != 1 else ZERO for i in range(n)]
        d = sc.dict()
        for s, v in zip(ss, vs):
            sc.I.setitem(d, s, v, None)
        sc.call(sc.F("zksk.expr", "update_secret_values"), d)
        want = vs + [sc.num("old%d" % i) if i % 2 else NONE for i in range(n, n + 2)]
        for i, (s, w) in enumerate(zip(ss, want)):
            ck.same("update of %d secrets: value of secret %d" % (n, i), sc.r(sc.get(s, "value")), w, loc)
