"""Primitives built on precommitments: inequality, ranges, BBS+ credentials."""

from .common import *
from .skeletons import *
from .protocol import MODES, VERIFY, adv, bound, honest_holds, raised, equation_holds, side_conditions, never, too_few

NEQ_AT = ("DLNotEqual.construct_stmt", "DLNotEqual.precommit", "DLNotEqual.validate")
RANGE_AT = ("PowerTwoRangeStmt.construct_stmt", "PowerTwoRangeStmt.precommit", "PowerTwoRangeStmt.validate",
            "GenericRangeStmtMaker.__call__")

# ---------------------------------------------------------------------------------------------
# inequality


def neqs():
    return names(None, heavy=True, pick=lambda n: "neq" in n and not n.startswith("tree"))


@rule("C12", "the honest inequality proof verifies")
def neq_honest(ck):
    for name in neqs():
        for k in choices(name):
            for mode in MODES:
                honest_holds(ck, name, k, mode, NEQ_AT)
    for k in range(2):
        for kind in ("AndProofStmt", "OrProofStmt"):
            for bind in (False, True):
                twice(ck, kind, bind, k)


def twice(ck, kind, bind, k):
    """One statement object at two places."""
    sc = ck.scn()
    sc.I.force = k
    w = World(sc)

    def make(known):
        s = Side(w, known)
        n = s.neq("x", "g", "h", "Y", bind)
        d = s.dl(("z", "k"))
        return sc.new(kind, n.obj, d.obj, n.obj)

    nizk = sc.m(make(True), "prove")
    r = sc.m(make(False), "verify", nizk)
    acc = point_norm(sc, sc.accept(r))
    what = "%s(neq, z*k, the same neq)%s: honest proof verifies (choice %d)" % (kind, " bind" if bind else "", k)
    if acc is FALSE:
        ck.bad(what, "never accepted" + raised(sc), ck.at("ExtendedProofStmt.__copy__", *NEQ_AT))
    else:
        ck.holds(what, acc, where=ck.at(*NEQ_AT))


@rule("C12", "the honest prover has no accepted proof of a false inequality")
def neq_false(ck):
    for bind in (False, True):
        for wrap in ("alone", "and", "nested"):
            for mode in MODES:
                what = "%s %s%s: equal discrete logarithms are not accepted" % (wrap, mode, " bind" if bind else "")
                never(ck, what, lambda s: equal_dls(s, bind, wrap), mode, ck.at("DLNotEqual.validate", "DLNotEqual.precommit"))


def equal_dls(s, bind, wrap):
    s.w.pts["Y"] = mul(s.w.v("x"), s.p("h"))
    n = s.neq("x", "g", "h", "Y", bind)
    if wrap == "and":
        return s.all(s.dl(("z", "k")), n)
    if wrap == "nested":
        return s.all(s.dl(("v", "k")), s.all(s.dl(("z", "k")), n))
    return n


@rule("C12", "acceptance implies the internal equations, a non-neutral precommitment and the binding")
def neq_sound(ck):
    for name in neqs():
        equation_holds(ck, name, NEQ_AT)
        side_conditions(ck, name, NEQ_AT)


@rule("C12", "the inequality makes no demands on unrelated secrets")
def neq_excess(ck):
    """Responses of internal secrets may differ between occurrences."""
    for kind in ("AndProofStmt", "OrProofStmt"):
        for bind in (False, True):
            sc = ck.scn()
            w = World(sc)
            s = Side(w, False)
            n = s.neq("x", "g", "h", "Y", bind)
            st = sc.new(kind, n.obj, n.obj)
            v = sc.m(st, "get_verifier")
            ps = [sc.point("P%d" % i) for i in range(2)]
            sc.m(v, "process_precommitment", sc.list(*ps))
            ids = []
            for part in sc.items(sc.get(st, "subproofs")):
                ids.append([sc.r(sc.get(x, "name")) for x in sc.items(sc.m(part, "get_secret_vars"))])
            what = "%s of one inequality%s with itself: the occurrences have their own internal secrets" % (kind, " bind" if bind else "")
            shared = [x for x in ids[0] if x in ids[1] and not (x.op == "c" and x.a[1] == "x")]
            if any(t.has_unknown(x) for x in ids[0] + ids[1]):
                ck.dunno(what, short(ids))
            elif shared:
                ck.bad(what, "both use the secret %s" % short(shared[0]), ck.at("DLNotEqual.init_internal_secrets", "ExtendedProofStmt.__copy__", "DLNotEqual.__init__"))
            else:
                ck.ok(what)


# ---------------------------------------------------------------------------------------------
# ranges

LIMITS = [(0, 1), (0, 2), (0, 3), (2, 5), (1, 9), (5, 6), (7, 12), (-3, 2)]
LIMITS_FULL = [(0, n) for n in range(1, 20)] + [(a, a + n) for a in (1, 2, 3, 5, 8, 100, -1, -4) for n in (1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17)]


def limits(ck):
    return LIMITS_FULL if ck.tier == "thorough" else LIMITS


def wrapped(s, a, b, value, wrap, unknown=False):
    r = s.range(a, b, value=value, known=False if unknown else None)
    if wrap == "and":
        return s.all(r, s.dl(("z", "k"), ("r", "h")))
    if wrap == "or":
        return s.any(r, s.dl(("z", "k")))
    return r


@rule("C13", "every value inside the range has an honest proof that verifies")
def range_honest(ck):
    for a, b in limits(ck):
        for v in range(a, b):
            for wrap in ("alone", "and") if ck.tier == "thorough" or v in (a, b - 1) else ("alone",):
                for mode in MODES if ck.tier == "thorough" or v == b - 1 else MODES[:1]:
                    what = "%d in [%d, %d) %s: honest %s proof verifies" % (v, a, b, wrap, mode)
                    holds(ck, what, lambda s: wrapped(s, a, b, v, wrap), mode, RANGE_AT)
    for n in (1, 2, 3, 5) if ck.tier == "thorough" else (1, 2, 3):
        for v in range(2 ** n):
            for mode in MODES:
                holds(ck, "%d in [0, 2^%d): honest %s proof verifies" % (v, n, mode), lambda s: s.range2(n, bits=v), mode, RANGE_AT)


def holds(ck, what, f, mode, loc):
    SKELETONS["*"] = (f, {})
    R = honest(ck, "*", 0, mode)
    if R.acc is FALSE:
        ck.bad(what, "never accepted%s" % raised(R.sc), ck.at(*loc))
    else:
        ck.holds(what, R.acc, where=ck.at(*loc))


@rule("C13", "no value outside of the range has a proof by the honest prover")
def range_outside(ck):
    for a, b in limits(ck):
        n = max(1, (b - a - 1).bit_length())
        for v in sorted({a - 2 ** n, a - 1, b, b + 1, a + 2 ** n, b + 2 ** n}):
            for mode in MODES if ck.tier == "thorough" else MODES[:1]:
                never(ck, "%d outside [%d, %d): no %s proof" % (v, a, b, mode), lambda s: wrapped(s, a, b, v, "alone"), mode, ck.at(*RANGE_AT))
    for n in (1, 2, 3):
        for v in (-1, 2 ** n, 2 ** n + 1, 2 ** (n + 1)):
            for mode in MODES:
                never(ck, "%d outside [0, 2^%d): no %s proof" % (v, n, mode), lambda s: s.range2(n, bits=v), mode, ck.at(*RANGE_AT))


def range_skels(ck):
    out = []
    for a, b in limits(ck) + [(0, 9), (1, 18), (-5, 12)]:
        for wrap in ("alone", "and", "or") if (a, b) in ((2, 5), (0, 2), (5, 6)) else ("alone",):
            name = "[%d, %d) %s" % (a, b, wrap)
            SKELETONS[name] = ((lambda a, b, w: lambda s: wrapped(s, a, b, None, w))(a, b, wrap), {"hidden": True})
            out.append(name)
    for n in (1, 2, 3, 6):
        name = "[0, 2^%d)" % n
        SKELETONS[name] = ((lambda n: lambda s: s.range2(n))(n), {"hidden": True})
        out.append(name)
    return out


@rule("C13", "acceptance implies every bit equation and the combination of the bit commitments")
def range_sound(ck):
    for name in range_skels(ck):
        equation_holds(ck, name, RANGE_AT)
        side_conditions(ck, name, RANGE_AT)


@rule("C13", "many bits: acceptance implies every bit equation")
def range_long(ck):
    """Sizes at which a computation with machine words would change."""
    for n in (34,) if ck.tier == "quick" else (34, 66):
        name = "range of %d bits" % n
        SKELETONS[name] = (lambda s: s.range2(n, bits=3), {})
        try:
            few = too_few(ck, name, True)
            if few:
                ck.bad("%s: acceptance implies every bit equation" % name, few, ck.at(*RANGE_AT))
                continue
            equation_holds(ck, name, RANGE_AT)
            side_conditions(ck, name, RANGE_AT)
        finally:
            del SKELETONS[name]


@rule("C13", "wide general ranges consist of all bit equations of both halves")
def range_wide(ck):
    for a, b in ((3, 2 ** 12 + 6), (3, 2 ** 20 + 6)) if ck.tier == "quick" else ((3, 2 ** 12 + 6), (3, 2 ** 20 + 6), (-7, 2 ** 32 + 6)):
        name = "[%d, %d)" % (a, b)
        what = "%s: honest proofs have a commitment for every equation" % name
        SKELETONS[name] = (lambda s: wrapped(s, a, b, a + 1, "alone"), {})
        try:
            few = too_few(ck, name, True)
            (ck.bad(what, few, ck.at(*RANGE_AT)) if few else ck.ok(what))
        finally:
            del SKELETONS[name]


@rule("C13", "a wrong number of bit commitments is refused")
def range_count(ck):
    for n in (1, 2, 3):
        for delta in (-1, 1, 2):
            for mode in MODES:
                if n + delta < 0:
                    continue
                sc = ck.scn()
                w = World(sc)
                s = Side(w, False)
                node = s.range2(n)
                resp = node.respond()
                pre = sc.dict()
                cs = [sc.point("D%d" % i) for i in range(n + delta)]
                sc.I.setitem(pre, C("Cs"), sc.list(*cs), None)
                sc.I.setitem(pre, C("rand"), sc.num("rho"), None)
                if mode == "nizk":
                    r = sc.m(node.obj, "verify", sc.new("NIZK", challenge=sc.num("c"), responses=resp, precommitment=pre, stmt_hash=sym("sh")))
                else:
                    v = sc.m(node.obj, "get_verifier")
                    sc.m(v, "process_precommitment", pre)
                    sc.m(v, "send_challenge", raw("lit", sym("sh"), node.commitment()))
                    r = sc.m(v, "verify", resp)
                acc = sc.accept(r)
                what = "%d bits: a %s proof with %d bit commitments is refused" % (n, mode, n + delta)
                if acc is FALSE:
                    ck.ok(what)
                elif t.has_unknown(acc):
                    ck.dunno(what, short(acc))
                else:
                    ps = [p for p in paths(acc) if not contradicts(p)]
                    (ck.bad if ps else ck.ok)(what, *(["accepted when " + show_path(ps[0]), ck.at(*RANGE_AT)] if ps else []))


@rule("C13", "RangeOnlyStmt proves the range of the given value")
def range_only(ck):
    for a, b in LIMITS if ck.tier == "thorough" else LIMITS[:5]:
        for v in range(a - 1, b + 1):
            for mode in MODES[:1]:
                sc = ck.scn()
                sc.I.force = 0
                x = sc.secret("x", C(v))
                st = sc.call(sc.F("zksk.primitives.rangeproof", "RangeOnlyStmt"), C(a), C(b), x)
                nizk = sc.m(st, "prove")
                r = sc.m(st, "verify", nizk)
                acc = point_norm(sc, sc.accept(r))
                what = "RangeOnlyStmt(%d, %d) of %d: %s" % (a, b, v, "verifies" if a <= v < b else "has no proof")
                loc = ck.at("GenericRangeOnlyStmtMaker.__call__", *RANGE_AT[:3])
                if a <= v < b:
                    if acc is FALSE:
                        ck.bad(what, "never accepted" + raised(sc), loc)
                    else:
                        ck.holds(what, acc, where=loc)
                elif acc is FALSE:
                    ck.ok(what)
                elif t.has_unknown(acc):
                    ck.dunno(what, short(acc))
                else:
                    ck.bad(what, "accepted when " + show_path(paths(acc, 1)[0]), loc)


# ---------------------------------------------------------------------------------------------
# BBS+

BBS_AT = ("BBSPlusSignatureStmt.construct_stmt", "BBSPlusSignatureStmt.precommit", "BBSPlusSignatureStmt.__init__")


def bbs_names():
    return [n for n in names(None, heavy=True, pick=lambda n: "bbs" in n) if "another" not in n]


@rule("C14", "the proof of a valid signature verifies")
def bbs_honest(ck):
    for name in bbs_names():
        for k in choices(name):
            for mode in MODES:
                honest_holds(ck, name, k, mode, BBS_AT)


@rule("C14", "an invalid signature has no proof by the honest prover")
def bbs_invalid(ck):
    for mode in MODES:
        for n in (1, 2, 3):
            for binding in (True, False):
                ms = ["m%d" % i for i in range(n)]
                never(ck, "%d messages%s: no %s proof of an invalid signature" % (n, "" if binding else " without binding", mode),
                      lambda s: s.bbs(ms, binding, valid=False), mode, ck.at(*BBS_AT))


@rule("C14", "acceptance implies the internal equations of the proof of possession")
def bbs_sound(ck):
    for name in names(None, heavy=True, pick=lambda n: "bbs" in n):
        with ck.part(name):
            equation_holds(ck, name, BBS_AT)
            side_conditions(ck, name, BBS_AT)


def issue(ck, n, zkp, extra=0, before=()):
    """Commit, sign and unblind n messages; before: commitments made earlier by the same creator."""
    sc = ck.scn()
    w = World(sc)
    s = Side(w, True)
    pk, gens, h0, wp = s.bbs_key(n + extra)
    sk = sc.new("BBSPlusSecretKey", h0=h0, gamma=w.v("gamma"), generators=sc.list(*gens))
    ms = [sc.num("m%d" % i) for i in range(n)]
    cr = sc.new("BBSPlusSignatureCreator", pk)
    old = []
    for z in before:
        old.append(sc.m(cr, "commit", sc.list(*[sc.num("o%d" % i) for i in range(n)]), zkp=C(z)))
    com = sc.m(cr, "commit", sc.list(*ms), zkp=C(zkp))
    return sc, w, pk, sk, gens, h0, wp, ms, cr, com


@rule("C14", "issued signatures satisfy the equation and their blinding proof verifies")
def bbs_issue(ck):
    loc = ck.at("BBSPlusSecretKey.sign", "BBSPlusSignatureCreator.commit", "BBSPlusSignatureCreator.obtain_signature",
                "BBSPlusSignature.verify_signature")
    for n in (1, 2, 3) if ck.tier != "thorough" else (1, 2, 3, 4, 6):
        for zkp in (True, False):
            for extra in (0, 2):
                for before in ((), (True,), (False,)) if n < 3 else ((),):
                    sc, w, pk, sk, gens, h0, wp, ms, cr, com = issue(ck, n, zkp, extra, before)
                    tag = "%d messages, %d further generators, %s%s" % (n, extra, "blinded" if zkp else "not blinded",
                                                                       ", creator used before" if before else "")
                    if zkp:
                        with sc.fork():
                            acc = point_norm(sc, sc.accept(sc.m(com, "verify_blinding", pk)))
                            what = tag + ": the blinding proof verifies"
                            if acc is FALSE:
                                ck.bad(what, "never accepted" + raised(sc), ck.at("UserCommitmentMessage.verify_blinding"))
                            else:
                                ck.holds(what, acc, where=ck.at("UserCommitmentMessage.verify_blinding"))
                    ps = sc.m(sk, "sign", sc.get(com, "com_message"))
                    sig = sc.m(cr, "obtain_signature", ps)
                    acc = point_norm(sc, sc.accept(sc.m(sig, "verify_signature", pk, sc.list(*ms))))
                    what = tag + ": the issued signature verifies"
                    if acc is FALSE:
                        ck.bad(what, "never accepted" + raised(sc), loc)
                    else:
                        ck.holds(what, acc, where=loc)
                    eqn = signature_equation(sc, w, gens, h0, wp, ms, *(sc.r(sc.get(sig, x)) for x in "Aes"))
                    ck.holds(tag + ": the issued signature satisfies the BBS+ equation", point_norm(sc, eqn), where=loc)


def signature_equation(sc, w, gens, h0, wp, ms, A, e, s):
    rhs = add(gens[0], mul(s, gens[1]))
    for m, g in zip(ms, gens[2:]):
        rhs = add(rhs, mul(m, g))
    return eq(t.pair(A, add(wp, mul(e, h0))), t.pair(rhs, h0))


@rule("C14", "signature verification is exactly the equation over all messages")
def bbs_verify(ck):
    loc = ck.at("BBSPlusSignature.verify_signature")
    for n in (0, 1, 2, 3, 5):
        for extra in (0, 1, 3):
            sc = ck.scn()
            w = World(sc)
            s = Side(w, False)
            pk, gens, h0, wp = s.bbs_key(n + extra)
            A, e, sv = sc.point("A", "G1"), sc.num("e"), sc.num("s")
            ms = [sc.num("m%d" % i) for i in range(n)]
            sig = sc.new("BBSPlusSignature", A=A, e=e, s=sv)
            acc = point_norm(sc, sc.accept(sc.m(sig, "verify_signature", pk, sc.list(*ms))))
            want = point_norm(sc, signature_equation(sc, w, gens, h0, wp, ms, A, e, sv))
            tag = "%d messages, %d further generators: " % (n, extra)
            ck.implied(tag + "acceptance implies the equation", acc, want, where=loc)
            ck.implied(tag + "the equation implies acceptance", want, acc, where=loc)
    for n, short_by in ((1, 1), (2, 1), (2, 2), (3, 2), (5, 1)):
        sc = ck.scn()
        w = World(sc)
        pk, gens, h0, wp = Side(w, False).bbs_key(n - short_by)
        sig = sc.new("BBSPlusSignature", A=sc.point("A", "G1"), e=sc.num("e"), s=sc.num("s"))
        ms = sc.list(*[sc.num("m%d" % i) for i in range(n)])
        acc = point_norm(sc, sc.accept(sc.m(sig, "verify_signature", pk, ms)))
        ck.implied("%d messages under a key for %d: refused" % (n, n - short_by), acc, FALSE, where=loc)
        for zkp in (True, False):
            with sc.fork():
                sc.I.st.pc = TRUE
                sc.m(sc.new("BBSPlusSignatureCreator", pk), "commit", ms, zkp=C(zkp))
                ck.implied("%d messages for a key for %d: no commitment%s" % (n, n - short_by, "" if zkp else " without proof"), sc.pc, FALSE,
                           where=ck.at("BBSPlusSignatureCreator.commit"))


@rule("C14", "the blinding proof covers the commitment and every message")
def bbs_blinding(ck):
    loc = ck.at("UserCommitmentMessage.verify_blinding", "BBSPlusSignatureCreator.commit")
    for n in (1, 2, 3):
        sc = ck.scn()
        w = World(sc)
        s = Side(w, False)
        pk, gens, h0, wp = s.bbs_key(n + 1)
        com = sc.point("com", "G1")
        R = World(sc)
        c, zs = sc.num("c"), [sc.num("z%d" % i) for i in range(n + 1)]
        sh = sym("sh")
        nizk = sc.new("NIZK", challenge=c, responses=sc.list(*zs), stmt_hash=sh)
        msg = sc.new("UserCommitmentMessage", com_message=com, com_nizk_proof=nizk)
        acc = point_norm(sc, sc.accept(sc.m(msg, "verify_blinding", pk)))
        R.sc, R.acc, R.c = sc, acc, c
        rec = neg(mul(c, com))
        for z, g in zip(zs, gens[1:]):
            rec = add(rec, mul(z, g))
        R.digest = digest_of(acc, sh)
        bound(ck, "blinding of %d messages" % n, R, [("recomputed commitment 0", rec), ("commitment", com)], loc)
        # the prover's statement covers every message: response i is k_i + c m_i for the i-th generator
        sc, w, pk, sk, gens, h0, wp, ms, cr, cm = issue(ck, n, True, 1)
        pr = sc.get(cm, "com_nizk_proof")
        com, c = sc.r(sc.get(cm, "com_message")), sc.r(sc.get(pr, "challenge"))
        zs = content(sc.r(sc.get(pr, "responses")))
        what = "blinding of %d messages: one response for the blinding factor and each message" % n
        if zs.op != "lit":
            ck.dunno(what, short(zs))
        elif len(zs.a) != n + 1:
            ck.bad(what, "%d responses" % len(zs.a), loc)
        else:
            ck.ok(what)
    sc = ck.scn()
    w = World(sc)
    pk, gens, h0, wp = Side(w, False).bbs_key(2)
    msg = sc.new("UserCommitmentMessage", com_message=sc.point("com", "G1"))
    acc = sc.accept(sc.m(msg, "verify_blinding", pk))
    what = "a commitment without a proof is not accepted"
    if acc is FALSE:
        ck.ok(what)
    elif t.has_unknown(acc):
        ck.dunno(what, short(acc))
    else:
        ck.bad(what, "accepted when " + show_path(paths(acc, 1)[0]), loc)


def digest_of(acc, sh):
    """What acceptance forces the sent statement hash to be."""
    for at, v in t.literals(acc):
        if v and at.op == "eq" and sh in at.a:
            return at.a[0] if at.a[1] is sh else at.a[1]
    return sh


@rule("C14", "commitments are blinded by a fresh factor which enters the signature")
def bbs_blinded(ck):
    loc = ck.at("BBSPlusSignatureCreator.commit", "BBSPlusSignatureCreator.obtain_signature")
    for n in (1, 2):
        sc, w, pk, sk, gens, h0, wp, ms, cr, com = issue(ck, n, True, 0)
        x = sc.r(sc.get(com, "com_message"))
        d = x
        for m, g in zip(ms, gens[2:]):
            d = sub(d, mul(m, g))
        k = [m for c, m in t.monomials(d)]
        what = "%d messages: commitment = blinding * g1 + sum of m_i g_{i+1}" % n
        rnd = [y for m in k for y in m if y.op == "rand"]
        if len(k) == 1 and len(rnd) == 1 and any(y is gens[1] for y in k[0]):
            ck.ok(what)
        elif t.has_unknown(d):
            ck.dunno(what, short(d))
        else:
            ck.bad(what, "commitment minus messages is %s" % short(d), loc)


@rule("C14", "key pairs belong together")
def bbs_keys(ck):
    loc = ck.at("BBSPlusKeypair.generate")
    sc = ck.scn()
    sc.bilinear()
    bp = sym("bp")
    g1, g2 = sym("G1"), sym("G2")
    sc.I.st.s[("fo", bp, "G1")] = g1
    sc.I.st.s[("fo", bp, "G2")] = g2
    sc.I.st.s[("fo", bp, "GT")] = sym("GT")
    for n in (1, 2, 4):
        with sc.fork():
            kp = sc.call(sc.get(sc.K("BBSPlusKeypair"), "generate"), bp, C(n))
            pk, sk = sc.get(kp, "pk"), sc.get(kp, "sk")
            h0, gam = sc.r(sc.get(pk, "h0")), sc.r(sc.get(sk, "gamma"))
            ck.same("%d messages: w = gamma h0" % n, sc.r(sc.get(pk, "w")), mul(gam, h0), loc)
            ck.same("%d messages: the keys use one generator of G2" % n, sc.r(sc.get(sk, "h0")), h0, loc)
            gp, gs = content(sc.r(sc.get(pk, "generators"))), content(sc.r(sc.get(sk, "generators")))
            ck.same("%d messages: the keys use the same generators" % n, gs, gp, loc)
            ln = length(gp)
            ck.holds("%d messages: there are at least n+2 generators" % n, NOT(lt(ln, C(n + 2))), where=loc)
            what = "%d messages: gamma is drawn uniformly from the whole group" % n
            if gam.op == "rand" and gam.a[1] is raw("ord", g1):
                ck.ok(what)
            elif gam.op == "rand" or not t.has_unknown(gam) and not any(y.op == "rand" for y in t.subterms(gam)):
                ck.bad(what, short(gam), loc)
            else:
                ck.dunno(what, short(gam))
