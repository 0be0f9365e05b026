"""Verification of whole statements: completeness, soundness conditions, challenge binding, refusals."""

from .common import *
from .skeletons import *

MODES = ("nizk", "sigma")

VERIFY = {
    "nizk": ("Verifier.verify_nizk", "ComposableProofStmt.verify"),
    "sigma": ("Verifier.verify", "Verifier.send_challenge", "AndVerifier.send_challenge"),
}

_runs = {}


def adv(ck, name, mode):
    """Adversarial run, computed once per process."""
    key = (id(ck), name, mode)
    if key not in _runs:
        _runs[key] = adversary(ck, name, mode)
    return _runs[key]


def where(ck, R, *methods):
    """Anchors for the classes that occur in a statement."""
    cl = []
    for n in R.vs.nodes():
        if n.cls and n.cls not in cl:
            cl.append(n.cls)
    return ck.at(*methods)


INJECTIVE = {"lit", "L", "D", "enc", "str", "repr", "utf8", "digest", "hexdigest", "strcat", "cat", "dput", "concat", "pair",
             "struct", "tuple"}
LOSSY_METHODS = {"strip", "lstrip", "rstrip", "lower", "upper", "casefold", "title", "capitalize", "swapcase", "split", "partition",
                 "rpartition", "replace", "zfill", "rsplit", "splitlines"}
LOSSY = {"item", "lossyenc", "mod", "slice", "cut", "len", "numbits", "poly", "sum", "pow", "in", "setof", "pyhash", "addr", "h2n", "idx", "lt",
         "eq0", "eq", "isnone", "truthy"}


def binds(expr, v):
    """True: v enters expr through injective constructors only; False: it does not; None: unknown."""
    if v.op == "c":
        return True
    found = [False]
    odd = [False]
    seen = set()

    def same(x):
        return x is v or (x.op == v.op == "poly" or t.is_point(x) and t.is_point(v)) and model.differ(x, v, trials=4, modq=True) is False

    def go(x):
        if found[0] or x in seen:
            return
        seen.add(x)
        if same(x):
            found[0] = True
            return
        if x.op in INJECTIVE:
            for y in x.a:
                if isinstance(y, T):
                    go(y)
        elif x.op == "mcall" and x.a[1] in LOSSY_METHODS:
            pass
        elif x.op == "map" and t.is_int(x.a[0]) and x.a[1].a[1].op == "item":
            pass  # the first so many items of something of any length
        elif x.op not in LOSSY and x.op not in ("c", "var", "ref", "rand", "inf", "gen"):
            if any(same(y) for y in t.subterms(x)):
                odd[0] = True

    go(expr)
    if found[0]:
        return True
    return None if odd[0] or t.has_unknown(expr) else False


def flat_points(x):
    """Leaves of nested lists."""
    x = content(x)
    if x.op == "lit":
        return [z for y in x.a for z in flat_points(y)]
    if x.op == "dput":
        return flat_points(x.a[0]) + flat_points(x.a[2])
    if x.op == "dempty":
        return []
    return [x]


def challenge_atoms(R):
    """(atom, hash expression) that acceptance forces to link the challenge of the proof with a hash."""
    out = []
    for at, v in t.literals(R.acc):
        if not v or not any(y is R.c for y in t.subterms(at)):
            continue
        ds = [y for y in t.subterms(at) if y.op in ("digest", "hexdigest")]
        if not ds:
            continue
        if at.op == "eq0":
            rest = sub(at.a[0], R.c)
            if any(y is R.c for y in t.subterms(_strip_hash(rest))):
                rest = neg(add(at.a[0], R.c))
            out.append((at, neg(rest)))
        elif at.op == "eq":
            x, y = at.a
            out.append((at, y if x is R.c else x))
        else:
            out.append((at, None))
    return out


def _strip_hash(x):
    return subst(x, {y: ZERO for y in t.subterms(x) if y.op == "h2n"})


FULL = {"h2n", "b2n", "int", "bnhex"}
STRONG = {"sha256", "sha384", "sha512", "sha3_256", "sha3_512", "blake2b", "blake2s", "sha3_384", "sha512_256"}


def full_hash(x):
    """The digest a number is the full image of; None if unclear, FALSE if something is cut off."""
    if x is None:
        return None
    y = x
    while True:
        if y.op in ("digest", "hexdigest"):
            return y
        if y.op in FULL and isinstance(y.a[0], T):
            y = y.a[0]
            continue
        if y.op in LOSSY:
            return FALSE
        return None


# ---------------------------------------------------------------------------------------------


@rule("C01", "honest proofs verify on every statement shape")
def honest_ok(ck):
    for name in names(ck):
        with ck.part(name):
            for k in choices(name):
                for mode in MODES:
                    honest_holds(ck, name, k, mode)


def honest_holds(ck, name, k, mode, loc=()):
    R = honest(ck, name, k, mode)
    what = "%s: honest %s proof verifies%s" % (name, mode, " (choice %d)" % k if len(choices(name)) > 1 else "")
    loc = ck.at(*loc, *VERIFY[mode])
    if R.acc is FALSE:
        ck.bad(what, "never accepted%s" % raised(R.sc), loc)
    else:
        ck.holds(what, R.acc, where=loc)


def never(ck, what, f, mode, loc):
    """The honest prover of the (false) statement is not accepted."""
    SKELETONS["*"] = (f, {})
    R = honest(ck, "*", 0, mode)
    if R.acc is FALSE:
        return ck.ok(what)
    if t.has_unknown(R.acc):
        return ck.dunno(what, short(R.acc))
    ps = [p for p in paths(R.acc) if not contradicts(p)]
    if not ps:
        return ck.ok(what)
    if model.differ(R.acc, FALSE, trials=20) is False:
        return ck.add(AGREES, what)
    ck.bad(what, "accepted when " + show_path(ps[0]), loc)


def raised(sc):
    es = sc.events(kind="raise")
    return ": %s at %s" % (es[-1].name, es[-1].where) if es else ""


@rule("C01", "the message does not prevent verification")
def honest_message(ck):
    for name in ("x*g + z*h", "x*g | z*h", "neq"):
        R = honest(ck, name, 0, "nizk", message=sym("msg"))
        what = "%s: honest proof with a message verifies" % name
        if R.acc is FALSE:
            ck.bad(what, "never accepted%s" % raised(R.sc), ck.at(*VERIFY["nizk"]))
        else:
            ck.holds(what, R.acc, where=ck.at(*VERIFY["nizk"]))


@rule("C02", "acceptance implies the identity of the statement")
def sound_identity(ck):
    for name in names(ck):
        with ck.part(name):
            for mode in MODES:
                R = adv(ck, name, mode)
                ck.implied("%s: %s acceptance implies that the statement hash is the verifier's own" % (name, mode), R.acc,
                           eq(R.sh, R.digest), where=ck.at(*VERIFY[mode], "ComposableProofStmt.check_statement"))


@rule("C02", "acceptance implies the verification equation under the verifier's challenge")
def sound_equation(ck):
    for name in names(ck):
        with ck.part(name):
            equation_holds(ck, name)


def equation_holds(ck, name, loc=()):
    R = adv(ck, name, "sigma")
    ck.implied("%s: sigma acceptance implies commitment = recomputed commitment" % name, R.acc, sigma_equation(R),
               where=ck.at(*loc, *VERIFY["sigma"]))
    R = adv(ck, name, "nizk")
    bound(ck, name, R, [("recomputed commitment %d" % i, r) for i, r in enumerate(R.vs.recomputed(R.c))],
          ck.at(*loc, *VERIFY["nizk"]))


def sigma_equation(R):
    return point_norm(R.sc, AND(*[eq(a, b) for a, b in zip(flat_points(R.sc.r(R.com)), R.vs.recomputed(R.c))]))


# What may have happened before an arbitrary proof is checked: (mode of the accepted proof, mode of the arbitrary one).
LATER = (("nizk", "nizk"), ("sigma", "sigma"), ("sigma", "nizk"), ("any", "nizk"), ("any", "sigma"))
# What the verifier's own statement may be like.
OWN = (("marked", "nizk"), ("marked", "sigma"), ("knows", "nizk"), ("knows", "sigma"))
FIRST = {"marked": "all parts were marked as simulated", "knows": "the verifier got to know the values", "nizk": "an accepted nizk proof", "sigma": "an accepted sigma proof", "any": "an arbitrary proof"}


def later(ck, name, first, mode):
    """Run of an adversary against a statement object that has accepted an honest proof."""
    key = (id(ck), name, first, mode)
    if key not in _runs:
        _runs[key] = adversary(ck, name, mode, first)
    return _runs[key]


@rule("C02", "marks, known values and former proofs do not help: arbitrary proofs are checked in full")
def sound_later(ck):
    for name in ("x*g + z*h", "(x*g & x*h) | z*k", "x*g | z*h", "x*g & (z*h | ?u*k)", "neq bind & x*k", "neq | z*k", "range 2 bits"):
        for first, mode in LATER + OWN:
            R = later(ck, name, first, mode)
            label = "%s, %s after %s" % (name, mode, FIRST[first])
            if mode == "sigma":
                ck.implied("%s: acceptance implies commitment = recomputed commitment" % label, R.acc, sigma_equation(R),
                           where=ck.at(*VERIFY["sigma"]))
            else:
                bound(ck, label, R, [("recomputed commitment %d" % i, r) for i, r in enumerate(R.vs.recomputed(R.c))],
                      ck.at(*VERIFY["nizk"]))
            cond = AND(eq(R.sh, R.digest), *[c for _, c in R.vs.consistency() + R.vs.or_conditions(R.c)])
            ck.implied("%s: acceptance implies identity and side conditions" % label, R.acc, point_norm(R.sc, cond),
                       where=ck.at(*VERIFY[mode]))


def too_few(ck, name, accepted=False):
    """Whether proofs with fewer equations than the statement has are accepted (those with all of them are not)."""
    if name not in SKELETONS:
        return None
    if not accepted:
        H = honest(ck, name)
        if H.acc is FALSE or t.has_unknown(H.acc):
            return None
    sc = ck.scn()
    sc.I.force = 0
    w = World(sc)
    vs = build(sc, w, name, False)
    vs.respond()
    want = vs.recomputed(sc.num("c"))
    p = sc.m(build(sc, w, name, True).obj, "get_prover")
    sc.m(p, "precommit")
    pts = flat_points(sc.r(sc.m(p, "commit")))
    rest = [x for x in pts if not (x in t.POINTS or x.op in ("poly", "inf", "sum"))]
    if any(t.has_unknown(x) for x in pts) or len(rest) > 1 or rest and rest[0].op != "digest" or len(pts) - len(rest) >= len(want):
        return None
    pts = [x for x in pts if x not in rest]
    return "honest proofs have commitments to %d equations only, the statement consists of %d" % (len(pts), len(want))


def bound(ck, name, R, parts, loc):
    """Acceptance links the challenge to a hash that binds the parts."""
    what = "%s: acceptance implies challenge = hash" % name
    ats = challenge_atoms(R)
    if not ats:
        if R.acc is FALSE:
            few = too_few(ck, name)
            return ck.bad(what, few, loc) if few else ck.dunno(what, "never accepted")
        if t.has_unknown(R.acc):
            return ck.dunno(what, short(R.acc))
        return ck.bad(what, "accepted when " + show_path(paths(R.acc, 1)[0]), loc)
    verdicts = []
    for at, h in ats:
        d = full_hash(h)
        if d is None:
            verdicts.append(("?", "unrecognized derivation %s" % short(h)))
            continue
        if d is FALSE:
            verdicts.append(("-", "only a part or a reduction of the hash is compared: %s" % short(h)))
            continue
        if d.a[0] not in STRONG:
            verdicts.append(("-", "hash function %s" % d.a[0]))
            continue
        miss = []
        for label, v in parts:
            b = binds(without_identity(R, d.a[1]) if label.startswith("precommitment") else d.a[1], point_norm(R.sc, v))
            if b is False:
                miss.append("%s %s is not part of the hash %s" % (label, short(v, 120), short(d, 300)))
            elif b is None:
                miss.append(None)
        if not miss:
            return ck.ok("%s: challenge is a full hash binding %s" % (name, ", ".join(dict.fromkeys(l.rsplit(" ", 1)[0] if l[-1].isdigit() else l for l, _ in parts))))
        hard = [m for m in miss if m]
        verdicts.append(("-", hard[0]) if hard else ("?", "unclear"))
    if any(v == "?" for v, _ in verdicts):
        return ck.dunno(what, verdicts[0][1])
    return ck.bad(what, verdicts[0][1], loc)


@rule("C02", "acceptance implies consistent responses, valid subchallenges and validation")
def sound_rest(ck):
    for name in names(ck):
        with ck.part(name):
            side_conditions(ck, name)


def side_conditions(ck, name, loc=()):
    for mode in MODES:
        R = adv(ck, name, mode)
        cond = AND(*[c for _, c in R.vs.consistency() + R.vs.or_conditions(R.c) + R.vs.validations()])
        ck.implied("%s: %s acceptance implies all side conditions" % (name, mode), R.acc, point_norm(R.sc, cond),
                   where=ck.at(*loc, *VERIFY[mode], "Verifier.pre_verification_validation"))


@rule("C02", "a simulation check accepts only transcripts that satisfy the equation")
def sound_simulation_check(ck):
    for name in names(ck, heavy=False, pick=lambda n: not n.startswith("tree")):
        with ck.part(name):
            sc = ck.scn()
            w = World(sc)
            vs = build(sc, w, name, False)
            sh = sym("sent_hash")
            resp, pre, com, c = vs.respond(), vs.pre(), vs.commitment(), sc.num("c")
            tr = sc.new("SimulationTranscript", commitment=com, challenge=c, responses=resp, precommitment=pre, stmt_hash=sh)
            r = sc.m(vs.obj, "verify_simulation_consistency", tr)
            acc = point_norm(sc, sc.accept(r))
            cond = point_norm(sc, AND(*[eq(a, b) for a, b in zip(flat_points(sc.r(com)), vs.recomputed(c))]))
            ck.implied("%s: the simulation check implies the verification equation" % name, acc, cond,
                       where=ck.at("ComposableProofStmt.verify_simulation_consistency"))


@rule("C02", "surplus, missing or reordered commitments are not accepted")
def sound_shape(ck):
    for name in names(ck, heavy=False, pick=lambda n: not n.startswith("tree")):
        with ck.part(name):
            for how in ("missing", "surplus"):
                sc = ck.scn()
                w = World(sc)
                vs = build(sc, w, name, False)
                if vs.kind not in ("and", "or"):
                    continue
                v = sc.m(vs.obj, "get_verifier")
                sh = sym("sent_hash")
                resp, pre = vs.respond(), vs.pre()
                sc.m(v, "process_precommitment", pre)
                cs = list(content(sc.r(vs.commitment())).a)
                if how == "missing":
                    cs = cs[:-1]
                else:
                    cs.append(sc.point("extra"))
                sc.m(v, "send_challenge", raw("lit", sh, sc.list(*cs)))
                r = sc.m(v, "verify", resp)
                acc = sc.accept(r)
                what = "%s: a commitment with %s parts is refused" % (name, how)
                if acc is FALSE:
                    ck.ok(what)
                elif t.has_unknown(acc):
                    ck.dunno(what, short(acc))
                elif how == "missing":
                    ck.bad(what, "accepted when " + show_path(paths(acc, 1)[0]), ck.at("Verifier.verify"))
                else:
                    cond = point_norm(sc, AND(*[eq(a, b) for a, b in zip(flat_points(raw("lit", *cs)), vs.recomputed(sc.r(sc.get(v, "challenge"))))]))
                    ck.implied(what, point_norm(sc, acc), cond, where=ck.at("Verifier.verify"))


@rule("C03", "the challenge is a full hash of identity, precommitment, commitment and message")
def fiat_shamir(ck):
    for name in names(ck):
        with ck.part(name):
            R = adv(ck, name, "nizk")
            with R.sc.fork():
                R.sc.I.st.pc = TRUE
                o = build(R.sc, w_like(R.w), name, False)
                if o.has_pre():
                    R.sc.m(R.sc.m(o.obj, "get_verifier"), "process_precommitment", R.pre)
            parts = [("statement identity", ident(R))] if ident(R) is not None else []
            parts += [("precommitment", x) for x in flat_points(R.sc.r(R.pre)) if x is not NONE]
            parts += [("commitment", x) for x in R.vs.recomputed(R.c)]
            parts.append(("message", R.msg))
            bound(ck, name, R, parts, ck.at("build_fiat_shamir_challenge", "Verifier.verify_nizk"))


def ident(R):
    """The identity hashed by the verifier's own statement, as a term."""
    d = R.digest
    while d.op in ("digest", "hexdigest"):
        its = content(d.a[1])
        if its.op != "lit" or not its.a:
            return d.a[1]
        d = its.a[0]
    return d


def without_identity(R, items):
    """The hash inputs other than the one with the identity of the statement."""
    i = ident(R)
    its = content(items)
    if its.op != "lit":
        return items
    rest = [x for x in its.a if not (x is i or x.op in ("digest", "hexdigest") and i is not None and binds(x, i))]
    return raw("lit", *rest)


@rule("C03", "the prover's challenge binds the same parts")
def fiat_shamir_prover(ck):
    for name in ("x*g + z*h", "x*g & z*h", "x*g | z*h", "neq bind & x*k", "neq | z*k"):
        R = honest(ck, name, 0, "nizk", message=sym("msg"))
        sc = R.sc
        ch = sc.r(sc.get(R.nizk, "challenge"))
        d = full_hash(ch)
        what = "%s: the prover's challenge is a full hash that binds precommitment and message" % name
        if d is None:
            ck.dunno(what, short(ch))
            continue
        loc = ck.at("Prover.get_nizk_proof", "build_fiat_shamir_challenge")
        if d is FALSE or d.a[0] not in STRONG:
            ck.bad(what, short(ch), loc)
            continue
        parts = [("message", sym("msg"))] + [("precommitment", x) for x in flat_points(sc.r(sc.get(R.nizk, "precommitment")))]
        vs = [(l, x, binds(d.a[1], x)) for l, x in parts]
        if any(b is False for _, _, b in vs):
            ck.bad(what, "%s is not part of %s" % ([l for l, _, b in vs if b is False][0], short(d)), loc)
        elif any(b is None for _, _, b in vs):
            ck.dunno(what, short(d))
        else:
            ck.ok(what)


@rule("C05", "responses of a recurring secret have to agree")
def consistency(ck):
    for name in names(ck):
        with ck.part(name):
            for mode in MODES:
                R = adv(ck, name, mode)
                for label, cond in R.vs.consistency():
                    ck.implied("%s: %s acceptance implies equal responses for %s" % (name, mode, label), R.acc, cond,
                               where=ck.at("DLRepVerifier.check_responses_consistency", "AndVerifier.check_responses_consistency",
                                           "OrVerifier.check_responses_consistency", "ExtendedVerifier.check_responses_consistency"))


@rule("C05", "nothing else is required of the responses")
def no_excess(ck):
    for name in names(ck):
        with ck.part(name):
            R = adv(ck, name, "sigma")
            zs = set()
            for n in R.vs.nodes():
                if n.kind == "dl":
                    zs |= set(n.z)
            spec = AND(*[c for _, c in R.vs.consistency()])
            n = 0
            for at, v in t.literals(R.acc):
                vs = {y for y in t.subterms(at) if y.op == "sym"}
                if vs and vs <= zs:
                    n += 1
                    ck.implied("%s: only responses of recurring secrets are compared" % name, spec,
                               raw("ite", at, TRUE, FALSE) if v else NOT(raw("ite", at, TRUE, FALSE)),
                               where=ck.at("DLRepVerifier.check_responses_consistency", "AndVerifier.check_responses_consistency",
                                           "OrVerifier.check_responses_consistency", "ExtendedVerifier.check_responses_consistency"))
            if not n:
                ck.ok("%s: no response is compared" % name)


@rule("C06", "subchallenges are in range and sum to the challenge")
def or_conditions(ck):
    for name in names(ck):
        with ck.part(name):
            for mode in MODES:
                R = adv(ck, name, mode)
                for label, cond in R.vs.or_conditions(R.c):
                    ck.implied("%s: %s acceptance implies that %s" % (name, mode, label), R.acc, cond,
                               where=ck.at("OrProofStmt.recompute_commitment", "_find_residual_challenge"))


@rule("C05", "consistency does not depend on marks, known values and former proofs")
def consistency_always(ck):
    for name in ("(x*g & x*h) | z*k", "(x*g & z*h) & (x*h & z*g + x*k)", "operators: x*g & (z*h & x*k)", "neq bind & x*k"):
        if name not in SKELETONS:
            continue
        for first, mode in LATER + OWN:
            R = later(ck, name, first, mode)
            for label, cond in R.vs.consistency():
                ck.implied("%s: %s acceptance after %s implies equal responses for %s" % (name, mode, FIRST[first], label), R.acc,
                           point_norm(R.sc, cond),
                           where=ck.at("DLRepVerifier.check_responses_consistency", "AndVerifier.check_responses_consistency",
                                       "OrVerifier.check_responses_consistency", "ExtendedVerifier.check_responses_consistency"))


@rule("C06", "the constraint on subchallenges does not depend on marks, known values and former proofs")
def or_conditions_always(ck):
    for name in ("x*g | z*h", "x*g & (z*h | ?u*k)", "neq | z*k", "x*g | z*h | w*k | ?u*g"):
        if name not in SKELETONS:
            continue
        for first, mode in LATER + OWN:
            R = later(ck, name, first, mode)
            for label, cond in R.vs.or_conditions(R.c):
                ck.implied("%s: %s acceptance after %s implies that %s" % (name, mode, FIRST[first], label), R.acc, point_norm(R.sc, cond),
                           where=ck.at("OrProofStmt.recompute_commitment", "_find_residual_challenge"))


SPELLINGS = [("a", "b"), ("x", "X"), ("secret_number_one", "secret_number_two"), ("one_secret", "two_secret"), ("x", "x "), ("x", "xx"), ("", "x"),
             ("s1", "s10"), ("\u00e9", "e\u0301"), ("a" * 40 + "1", "a" * 40 + "2"), ("0", "00"), ("x_0", "x-0")]


@rule("C05", "secrets are told apart by their full names")
def secret_equality(ck):
    loc = ck.at("Secret.__eq__", "Secret.__hash__")

    def same(a, b, how):
        if how == "==":
            return truth(sc.I.on_leaves(sc.m(a, "__eq__", b), lambda x: truth(x)))
        return eq(sc.r(sc.m(a, "__hash__")), sc.r(sc.m(b, "__hash__")))

    for label, v, u in (("without values", None, None), ("with one value", "v", "v"), ("with any values", "v", "u")):
        sc = ck.scn()
        v, u = (x and sc.num(x) for x in (v, u))
        n, m = sym("name1"), sym("name2")
        assume(sc, AND(NOT(isnone(n)), NOT(isnone(m))))
        a, b, c = (sc.new("Secret", value=NONE if y is None else y, name=x) for x, y in ((n, v), (m, u), (n, v)))
        for how in ("==", "hash"):
            ck.implied("%s: equal only if the names are equal (%s)" % (label, how), same(a, b, how), eq(n, m), where=loc)
            ck.holds("%s: equal if names and values are equal (%s)" % (label, how), same(a, c, how), where=loc)
    for x, y in SPELLINGS:
        sc = ck.scn()
        a, b = sc.secret(x), sc.secret(y)
        for how in ("==", "hash"):
            ck.holds("names %r and %r: different secrets (%s)" % (x, y, how), NOT(same(a, b, how)), where=loc)
    sc = ck.scn()
    a, b = sc.new("Secret"), sc.new("Secret")
    for how in ("==", "hash"):
        ck.holds("unnamed secrets are different (%s)" % how, NOT(same(a, b, how)), where=ck.at("Secret.__init__", "Secret._generate_unique_name"))
    x = sc.r(sc.get(a, "name"))
    what = "the name of an unnamed secret has at least 64 bits"
    if x.op == "cut" and t.is_int(x.a[2]) and x.a[0].op == "hexdigest" and x.a[1] in (NONE, ZERO):
        (ck.ok(what) if x.a[2].a[1] >= 16 else ck.bad(what, short(x), ck.at("Secret._generate_unique_name")))
    elif x.op == "c":
        ck.bad(what, short(x), ck.at("Secret.__init__"))
    elif x.op in ("hexdigest", "str") or t.tokens(x):
        ck.ok(what)
    else:
        ck.dunno(what, short(x))


def has_or(name, ck):
    sc = ck.scn()
    return any(n.kind == "or" for n in build(sc, World(sc), name, False).nodes())


@rule("C06", "each clause is verified under its own subchallenge")
def or_own_challenge(ck):
    for name in names(ck):
        with ck.part(name):
            R = adv(ck, name, "sigma")
            if not any(n.kind == "or" for n in R.vs.nodes()):
                continue
            cond = point_norm(R.sc, AND(*[eq(a, b) for a, b in zip(flat_points(R.sc.r(R.com)), R.vs.recomputed(R.c))]))
            ck.implied("%s: clauses are recomputed under their own subchallenges" % name, R.acc, cond,
                       where=ck.at("OrProofStmt.recompute_commitment"))


@rule("C06", "as many subchallenges as clauses")
def or_count(ck):
    for name in ("x*g | z*h", "x*g | x*h | x*k", "x*g & (z*h | ?u*k)", "(x*g | ?u*k) | z*h", "neq | z*k", "range 2 bits"):
        for mode in MODES:
            for how in ("surplus", "missing"):
                sc = ck.scn()
                w = World(sc)
                R = Run()
                vs = build(sc, w, name, False)
                for o in [n for n in vs.nodes() if n.kind == "or"]:
                    o.cut = how
                _or_respond(vs, how)
                sh, msg = sym("sent_hash"), sym("msg")
                resp, pre = vs.respond(), vs.pre()
                v = sc.m(vs.obj, "get_verifier")
                if mode == "nizk":
                    nizk = sc.new("NIZK", challenge=sc.num("c"), responses=resp, precommitment=pre, stmt_hash=sh)
                    r = sc.m(vs.obj, "verify", nizk, message=msg)
                else:
                    sc.m(v, "process_precommitment", pre)
                    sc.m(v, "send_challenge", raw("lit", sh, vs.commitment()))
                    r = sc.m(v, "verify", resp)
                acc = sc.accept(r)
                what = "%s: %s proofs with %s subchallenges are refused" % (name, mode, how)
                if acc is FALSE:
                    ck.ok(what)
                elif t.has_unknown(acc):
                    ck.dunno(what, short(acc))
                else:
                    ck.bad(what, "accepted when " + show_path(paths(acc, 1)[0]), ck.at("OrProofStmt.recompute_commitment"))


def _or_respond(vs, how):
    """Let the adversary send one subchallenge too many or too few (for the first disjunction)."""
    o = [n for n in vs.nodes() if n.kind == "or"][0]
    sc = o.w.sc

    def respond(path="z"):
        o.ch = [sc.num("%s_c%d" % (path, i)) for i in range(len(o.subs))]
        r = [s.respond("%s_%d" % (path, i)) for i, s in enumerate(o.subs)]
        ch = o.ch[:-1] if how == "missing" else o.ch + [sc.num("c_extra")]
        return raw("lit", sc.list(*ch), sc.list(*r))

    o.respond = respond


@rule("C06", "the honest prover's subchallenges satisfy the constraint")
def or_residual(ck):
    for name in ("x*g | z*h", "x*g | x*h | x*k", "?u*g | z*h | ?w*k", "(x*g | ?u*k) | z*h", "x*g | z*h | w*k | ?u*g"):
        for k in choices(name):
            sc = ck.scn()
            sc.I.force = k
            w = World(sc)
            ps = build(sc, w, name, True)
            p = sc.m(ps.obj, "get_prover")
            sc.m(p, "commit")
            c = sc.num("c")
            resp = content(sc.r(sc.m(p, "compute_response", c)))
            what = "%s (choice %d): subchallenges in range, sum to the challenge" % (name, k)
            if resp.op != "lit" or len(resp.a) != 2:
                ck.dunno(what, short(resp))
                continue
            ch = content(resp.a[0])
            if ch.op != "lit" or len(ch.a) != len(ps.subs):
                (ck.dunno if t.has_unknown(ch) else ck.bad)(what, "subchallenges %s" % short(ch))
                continue
            tot = ZERO
            rng = TRUE
            for x in ch.a:
                tot = add(tot, x)
                rng = AND(rng, NOT(lt(x, ZERO)), lt(x, C(2 ** 128)))
            loc = ck.at("OrProver.compute_response", "_find_residual_challenge")
            ck.holds(what + " (sum)", eq(mod(sub(tot, c), C(2 ** 128)), ZERO), where=loc)
            ck.holds(what + " (range)", rng, where=loc)


@rule("C11", "acceptance implies the validation of every part")
def validations(ck):
    for name in names(ck):
        with ck.part(name):
            for mode in MODES:
                R = adv(ck, name, mode)
                for label, cond in R.vs.validations():
                    ck.implied("%s: %s acceptance implies that %s" % (name, mode, label), R.acc, point_norm(R.sc, cond),
                               where=ck.at("Verifier.pre_verification_validation", "ComposableProofStmt.full_validate",
                                           "_CommonComposedStmtMixin.full_validate", "ExtendedProofStmt.full_validate"))


@rule("C11", "validation does not depend on marks, known values and former proofs")
def validations_later(ck):
    for name in ("neq", "neq bind & x*k", "neq | z*k", "range 2 bits", "range 2 bits | z*k", "bbs(m0)"):
        for first, mode in LATER + OWN:
            R = later(ck, name, first, mode)
            for label, cond in R.vs.validations():
                ck.implied("%s: %s acceptance after %s implies that %s" % (name, mode, FIRST[first], label), R.acc,
                           point_norm(R.sc, cond),
                           where=ck.at("Verifier.pre_verification_validation", "ComposableProofStmt.full_validate",
                                       "_CommonComposedStmtMixin.full_validate", "ExtendedProofStmt.full_validate"))


# ---------------------------------------------------------------------------------------------
# refusals

REFUSED = {}


def refuse(name):
    def deco(f):
        REFUSED[name] = f
        return f

    return deco


@refuse("x*g & (x*h | z*k)")
def _(s):
    return s.all(s.dl(("x", "g")), s.any(s.dl(("x", "h")), s.dl(("z", "k"))))


@refuse("(z*k | x*h) & x*g")
def _(s):
    return s.all(s.any(s.dl(("z", "k")), s.dl(("x", "h"))), s.dl(("x", "g")))


@refuse("(x*g | z*h) & (w*k | x*h)")
def _(s):
    return s.all(s.any(s.dl(("x", "g")), s.dl(("z", "h"))), s.any(s.dl(("w", "k")), s.dl(("x", "h"))))


@refuse("x*g & (w*k & (x*h | z*k))")
def _(s):
    return s.all(s.dl(("x", "g")), s.all(s.dl(("w", "k")), s.any(s.dl(("x", "h")), s.dl(("z", "k")))))


@refuse("(w*k & (x*h | z*k)) & x*g + v*h")
def _(s):
    return s.all(s.all(s.dl(("w", "k")), s.any(s.dl(("x", "h")), s.dl(("z", "k")))), s.dl(("x", "g"), ("v", "h")))


@refuse("x*g & ((x*h & v*g) | z*k)")
def _(s):
    return s.all(s.dl(("x", "g")), s.any(s.all(s.dl(("x", "h")), s.dl(("v", "g"))), s.dl(("z", "k"))))


@refuse("x*g & z*h & w*k & (v*h | x*k + z*g)")
def _(s):
    return s.all(s.dl(("x", "g")), s.dl(("z", "h")), s.dl(("w", "k")), s.any(s.dl(("v", "h")), s.dl(("x", "k"), ("z", "g"))))


@refuse("x*g & (z*h | w*k) & (x*h | v*k)")
def _(s):
    return s.all(s.dl(("x", "g")), s.any(s.dl(("z", "h")), s.dl(("w", "k"))), s.any(s.dl(("x", "h")), s.dl(("v", "k"))))


@refuse("(x*h | z*k | w*g | v*h) & v*k")
def _(s):
    return s.all(s.any(s.dl(("x", "h")), s.dl(("z", "k")), s.dl(("w", "g")), s.dl(("v", "h"))), s.dl(("v", "k")))


@refuse("v*g & ((w*g & (w*h | z*k)) | x*k)")
def _(s):
    return s.all(s.dl(("v", "g")), s.any(s.all(s.dl(("w", "g")), s.any(s.dl(("w", "h")), s.dl(("z", "k")))), s.dl(("x", "k"))))


@refuse("(x*g | x*h) & (z*k | x*k)")
def _(s):
    return s.all(s.any(s.dl(("x", "g")), s.dl(("x", "h"))), s.any(s.dl(("z", "k")), s.dl(("x", "k"))))


@refuse("operators: x*g & (z*h | w*k) & (v*g | x*h)")
def _(s):
    return s.conj(s.conj(s.dl(("x", "g")), s.disj(s.dl(("z", "h")), s.dl(("w", "k")))), s.disj(s.dl(("v", "g")), s.dl(("x", "h"))))


@refuse("neq bind x & (x*h | z*k)")
def _(s):
    return s.all(s.neq("x", "g", "h", "Y", True), s.any(s.dl(("x", "h")), s.dl(("z", "k"))))


@refuse("x*k & (neq bind x | z*k)")
def _(s):
    return s.all(s.dl(("x", "k")), s.any(s.neq("x", "g", "h", "Y", True), s.dl(("z", "k"))))


@refuse("x*g & (z*h | (x*k | w*g))")
def _(s):
    return s.all(s.dl(("x", "g")), s.any(s.dl(("z", "h")), s.any(s.dl(("x", "k")), s.dl(("w", "g")))))


@refuse("(x*g & (x*h | z*k)) | w*g")
def _(s):
    return s.any(s.all(s.dl(("x", "g")), s.any(s.dl(("x", "h")), s.dl(("z", "k")))), s.dl(("w", "g")))


ORDERS = {}


def orders(name):
    def deco(f):
        ORDERS[name] = f
        return f

    return deco


K2, L2 = ("k2", "Grp2"), ("l2", "Grp2")


@orders("x*g & x*k2")
def _(s):
    return s.all(s.dl(("x", "g")), s.dl(("x", K2)))


@orders("x*g + z*h & x*k & w*k2 + z*l2")
def _(s):
    return s.all(s.dl(("x", "g"), ("z", "h")), s.dl(("x", "k")), s.dl(("w", K2), ("z", L2)))


@orders("x*g & x*h & x*k2")
def _(s):
    return s.all(s.dl(("x", "g")), s.dl(("x", "h")), s.dl(("x", K2)))


@orders("x*g & z*h & (x*k & (w*g & x*h)) & v*g & x*k2")
def _(s):
    return s.all(s.dl(("x", "g")), s.dl(("z", "h")), s.all(s.dl(("x", "k")), s.all(s.dl(("w", "g")), s.dl(("x", "h")))),
                 s.dl(("v", "g")), s.dl(("x", K2)))


@orders("x*k2 & z*h & x*g + v*h")
def _(s):
    return s.all(s.dl(("x", K2)), s.dl(("z", "h")), s.dl(("v", "g"), ("x", "h")))


@orders("(x*g & z*h) & (w*k & x*k2)")
def _(s):
    return s.all(s.all(s.dl(("x", "g")), s.dl(("z", "h"))), s.all(s.dl(("w", "k")), s.dl(("x", K2))))


@orders("x*g | x*k2")
def _(s):
    return s.any(s.dl(("x", "g")), s.dl(("x", K2)))


@orders("(x*g & x*k2) | z*h")
def _(s):
    return s.any(s.all(s.dl(("x", "g")), s.dl(("x", K2))), s.dl(("z", "h")))


@orders("z*h & (x*g | x*k2)")
def _(s):
    return s.all(s.dl(("z", "h")), s.any(s.dl(("x", "g")), s.dl(("x", K2))))


@orders("neq bind x & x*k2")
def _(s):
    return s.all(s.neq("x", "g", "h", "Y", True), s.dl(("x", K2)))


class Twins(Side):
    """Every occurrence of a secret is an object of its own."""

    def s(self, name, known=None):
        self.secrets.pop(name, None)
        return super().s(name, known)


class Checked(Side):
    """Parts are proven, simulated or validated before they become parts of something else."""

    def any(self, *xs):
        n = super().any(*xs)
        self.use(n)
        return n

    def all(self, *xs):
        n = super().all(*xs)
        self.use(n)
        return n

    def use(self, n):
        sc = self.sc
        sc.run("try:\n    p.full_validate()\nexcept Exception:\n    pass", p=n.obj)
        if self.known:
            sc.run("try:\n    p.prove()\nexcept Exception:\n    pass", p=n.obj)
        else:
            sc.run("try:\n    p.simulate()\nexcept Exception:\n    pass", p=n.obj)


class MarkedFirst(Side):
    """One clause of every disjunction is marked as simulated."""

    which = 0

    def any(self, *xs):
        if len(xs) > 1:
            self.sc.m(xs[self.which].obj, "set_simulated")
        return super().any(*xs)


class MarkedLast(MarkedFirst):
    which = -1


def _refusal(ck, name, f, cond, side=Side, tag=""):
    """Prover and verifier refuse unless cond."""
    name += tag
    loc = ck.at("AndProofStmt.validate_secrets_reoccurence", "OrProofStmt.validate_secrets_reoccurence",
                "_CommonComposedStmtMixin.validate_group_orders", "_CommonComposedStmtMixin.full_validate",
                "AndProver.internal_commit", "OrProver.internal_commit")

    def verdict(what, acc):
        if implies(acc, cond):
            ck.ok(what)
        elif t.has_unknown(acc):
            ck.dunno(what, short(acc))
        else:
            v, p = entail(acc, cond)
            if v is REFUTED:
                ck.bad(what, "not refused when " + show_path(p), loc)
            else:
                ck.add(v, what)

    for k in (0, 1):
        sc = ck.scn()
        sc.I.force = k
        w = World(sc)
        s = side(w, True)
        s.count = 0
        st = f(s)
        if not sc.alive():
            verdict("%s: the prover refuses (choice %d)" % (name, k), sc.pc)
            continue
        p = sc.m(st.obj, "get_prover")
        sc.m(p, "precommit")
        with sc.fork():
            sc.m(p, "commit")
            verdict("%s: the interactive prover refuses (choice %d)" % (name, k), sc.pc)
        sc.m(st.obj, "prove")
        verdict("%s: the prover refuses (choice %d)" % (name, k), sc.pc)
    for mode in MODES:
        R = adversary_of(ck, f, mode, side)
        verdict("%s: the verifier refuses (%s)" % (name, mode), R.acc)


def adversary_of(ck, f, mode, side=Side):
    sc = ck.scn()
    w = World(sc)
    R = Run()
    R.sc, R.w = sc, w
    s = side(w, False)
    s.count = 0
    vs = R.vs = f(s)
    sh, msg = sym("sent_hash"), sym("msg")
    resp, pre = vs.respond(), vs.pre()
    if mode == "nizk":
        nizk = sc.new("NIZK", challenge=sc.num("c"), responses=resp, precommitment=pre, stmt_hash=sh)
        r = sc.m(vs.obj, "verify", nizk, message=msg)
    else:
        v = sc.m(vs.obj, "get_verifier")
        sc.m(v, "process_precommitment", pre)
        sc.m(v, "send_challenge", raw("lit", sh, vs.commitment()))
        r = sc.m(v, "verify", resp)
    R.acc = sc.accept(r)
    return R


@rule("C10", "secrets inside and outside of a disjunction are refused")
def reoccurrence(ck):
    for name, f in REFUSED.items():
        with ck.part(name):
            _refusal(ck, name, f, FALSE)


@rule("C10", "secrets are recognized by names and values")
def reoccurrence_twins(ck):
    for name, f in list(REFUSED.items())[:6 if ck.tier == "quick" else None]:
        with ck.part(name):
            _refusal(ck, name, f, FALSE, Twins, ", each secret an object of its own")


@rule("C10", "uses of the parts before do not make a composition acceptable")
def reoccurrence_later(ck):
    for name, f in list(REFUSED.items())[:10 if ck.tier == "quick" else None]:
        with ck.part(name):
            _refusal(ck, name, f, FALSE, Checked, ", parts used before")
    same = eq(raw("ord", sym("Grp")), raw("ord", sym("Grp2")))
    for name, f in list(ORDERS.items())[:6 if ck.tier == "quick" else None]:
        with ck.part(name):
            _refusal(ck, name, f, same, Checked, ", parts used before")


@rule("C10", "marks for simulation do not make a composition acceptable")
def reoccurrence_marked(ck):
    same = eq(raw("ord", sym("Grp")), raw("ord", sym("Grp2")))
    for side, tag in ((MarkedFirst, ", first clauses marked"), (MarkedLast, ", last clauses marked")):
        for name, f in list(REFUSED.items())[:10 if ck.tier == "quick" else None]:
            with ck.part(name):
                _refusal(ck, name, f, FALSE, side, tag)
        for name, f in list(ORDERS.items())[:6 if ck.tier == "quick" else None]:
            with ck.part(name):
                _refusal(ck, name, f, same, side, tag)


@rule("C10", "one secret in groups of different orders is refused")
def group_orders(ck):
    same = eq(raw("ord", sym("Grp")), raw("ord", sym("Grp2")))
    for name, f in ORDERS.items():
        with ck.part(name):
            _refusal(ck, name, f, same)


@rule("C10", "supported compositions are not refused")
def supported(ck):
    for name in names(ck):
        with ck.part(name):
            for k in choices(name):
                sc = ck.scn()
                sc.I.force = k
                w = World(sc)
                st = build(sc, w, name, True)
                p = sc.m(st.obj, "get_prover")
                sc.m(p, "precommit")
                sc.m(p, "commit")
                what = "%s: the prover commits (choice %d)" % (name, k)
                if sc.pc is FALSE:
                    ck.bad(what, "refused%s" % raised(sc), ck.at("AndProver.internal_commit", "OrProver.internal_commit"))
                else:
                    ck.holds(what, sc.pc)
            R = adv(ck, name, "nizk")
            what = "%s: the verifier does not refuse" % name
            if R.acc is FALSE:
                ck.bad(what, "refused%s" % raised(R.sc), ck.at("_CommonComposedStmtMixin.full_validate"))
            else:
                ck.ok(what)
