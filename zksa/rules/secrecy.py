"""
What a transcript reveals: distribution of honest and simulated transcripts, sources of randomness.

For a fixed global challenge every subchallenge is an integer combination of the challenges drawn, and, given
the subchallenges, every precommitted point or number and every response is affine in the numbers drawn below
group orders.  The transcript is then uniform on an affine space, and two ways to produce one are
indistinguishable exactly if their spaces coincide.  The spaces are computed from the value terms; the
coefficients, which depend on public points and secret values, are compared at random points of a large field.
"""

import random as _random
import re

from .common import *
from .skeletons import *

Q = model.Q
SPACE = C(2 ** 128)
STRONG = ("bn.", "secrets.", "system.", "os.")


# ---------------------------------------------------------------------------------------------
# transcripts


class Transcript:
    """Leaves [(path, term)] of what one run reveals, besides the commitment."""

    def __init__(self, sc, label, pre, resp, com=None):
        self.sc, self.label = sc, label
        self.pre, self.resp, self.com = sc.r(pre), sc.r(resp), None if com is None else sc.r(com)
        self.leaves = flatten(self.pre, "precommitment") + flatten(self.resp, "response")
        self.coms = [] if com is None else flatten(self.com, "commitment")


def flatten(x, path):
    if x.op == "tuple":
        x = x.a[-1]
    x = content(x)
    if x.op == "lit":
        out = [(path, "list of %d" % len(x.a))]
        for i, y in enumerate(x.a):
            out += flatten(y, "%s[%d]" % (path, i))
        return out
    if x.op in ("dput", "dempty"):
        es = {}
        while x.op == "dput":
            es.setdefault(x.a[1], x.a[2])
            x = x.a[0]
        out = [(path, "dict of %s" % ", ".join(sorted(str(k) for k in es)))]
        for k in sorted(es, key=str):
            out += flatten(es[k], "%s[%s]" % (path, k))
        return out
    if x is NONE:
        return [(path, "none")]
    return [(path, x)]


def real(sc, node, label, c):
    p = sc.m(node.obj, "get_prover")
    pre = sc.m(p, "precommit")
    com = sc.m(p, "commit")
    resp = sc.m(p, "compute_response", c)
    if not sc.alive():
        raise AnalysisBroken("proving fails: %s" % (sc.events(kind="raise") or [None])[-1])
    return Transcript(sc, label, pre, resp, item(sc.r(com), ONE))


def simulated(sc, node, label, c):
    s = sc.m(node.obj, "simulate", challenge=c)
    if not sc.alive():
        raise AnalysisBroken("simulation fails")
    return Transcript(sc, label, sc.get(s, "precommitment"), sc.get(s, "responses"), sc.get(s, "commitment"))


# ---------------------------------------------------------------------------------------------
# affine forms


class NotAffine(Exception):
    pass


def canon_ord(sc, x):
    """Orders of groups known to be equal written alike."""
    m = {}
    for y in t.subterms(x):
        if y.op == "ord":
            m[y] = raw("ord", sc.I.same_order.get(y.a[0], y.a[0]))
    return subst(x, m) if m else x


def bound_class(sc, b):
    """("challenge",), ("order", ord) or None."""
    if not isinstance(b, T):
        return None
    if b is SPACE:
        return ("challenge",)
    b = canon_ord(sc, b)
    rest, o = 0, None
    for c, m in t.monomials(b):
        if not m:
            rest = c
        elif len(m) == 1 and m[0].op == "ord" and c == 1 and o is None:
            o = m[0]
        else:
            return None
    if o is not None and abs(rest) <= 16:
        return ("order", o)
    return None


def kind(sc, r):
    """Class of a draw."""
    if not r.a[0].a[1].startswith(STRONG):
        return None
    return bound_class(sc, r.a[1])


def has_rand(x):
    return any(y.op == "rand" for y in t.subterms(x))


def reduce_draws(sc, x, outer=True):
    """
    x with reductions dropped that do not change the distribution: by orders (values act modulo the order)
    and of sums of challenges by 2^128. A draw reduced by something smaller is a draw below that.
    """
    memo = {}

    def of_mod(a, m, top):
        if not has_rand(a):
            return t.mod(a, m)
        if m.op == "ord":
            if a.op == "rand" and t.is_int(a.a[1]) and a.a[1].a[1] >= 2 ** 320:
                raise NotAffine("wide draw")
            return a
        if a.op == "rand":
            b = canon_ord(sc, a.a[1])
            k = bound_class(sc, b)
            if t.is_int(b) and t.is_int(m):
                if m.a[1] >= b.a[1]:
                    return a
                if b.a[1] % m.a[1] == 0 or b.a[1].bit_length() - m.a[1].bit_length() >= 64:
                    return raw("rand", a.a[0], m, *a.a[2:])
            elif k and k[0] == "order":
                if bound_class(sc, m) == k or m.op == "binop" and str(m.a[0]) in ("floordiv", "rshift") and m.a[1] is k[1] and t.is_int(m.a[2]) and m.a[2].a[1] >= 2:
                    return raw("rand", a.a[0], m, *a.a[2:])
                if t.is_int(m) and m.a[1] <= 2 ** 128:
                    return raw("rand", a.a[0], m, *a.a[2:])
            if not top:
                raise NotAffine("draw reduced by %s" % short(m, 60))
        if m is SPACE and all(kind(sc, r) == ("challenge",) or t.is_int(r.a[1]) for r in t.subterms(a) if r.op == "rand"):
            return a
        if top:
            return a
        raise NotAffine("randomness reduced by %s" % short(m, 60))

    def go(y, top):
        r = memo.get((y, top))
        if r is None:
            if not has_rand(y):
                r = t.strip_mod(y, lambda m: m.op == "ord" or m is SPACE)
            elif y.op == "mod":
                r = of_mod(go(y.a[0], False), y.a[1], top)
            elif y.op == "poly":
                new = tuple(go(z, False) if isinstance(z, T) else z for z in y.a)
                r = y if all(p is q for p, q in zip(new, y.a)) else t.rebuild(y, new)
            else:
                r = y
            memo[y, top] = r
        return r

    return go(x, outer)


class Form:
    """sum of (coefficient term, draws of challenges, draws of scalars); modulus of the outermost reduction."""

    def __init__(self, sc, x):
        self.sc, self.x = sc, x
        self.mod = None
        self.point = False
        if x.op == "ite":
            raise NotAffine("depends on %s" % short(x.a[0], 100))
        if x.op == "mod":
            self.mod = canon_ord(sc, x.a[1])
        elif x.op == "rand":
            self.mod = canon_ord(sc, x.a[1])
        elif t.is_int(x):
            self.mod = "constant"
        y = reduce_draws(sc, x)
        self.point = t.is_point(y) or y is INF
        self.monos = []
        for c, m in t.monomials(y):
            m = list(m)
            k, ch, scal, pts = [C(c)], [], [], []
            for f in m:
                if f.op == "rand":
                    kd = kind(sc, f)
                    if kd == ("challenge",) or kd is None and t.is_int(f.a[1]):
                        ch.append(f)
                    else:
                        scal.append(f)
                elif f.op in ("inf",):
                    k.append(ZERO)
                elif has_rand(f):
                    raise NotAffine("randomness inside %s" % short(f, 100))
                else:
                    k.append(f)
                    if t.is_point(f):
                        pts.append(f)
            if len(scal) > 1:
                raise NotAffine("product of draws in %s" % short(x, 100))
            self.monos.append((k, ch, scal[0] if scal else None, pts))
        self.draws = {r for _, _, r, _ in self.monos if r is not None}
        self.chals = {r for _, ch, _, _ in self.monos for r in ch}

    def group_orders(self):
        """Orders by which masks have to be drawn."""
        if not self.point:
            return {self.mod} if isinstance(self.mod, T) else set()
        out = set()
        for _, _, _, pts in self.monos:
            for p in pts:
                g = self.sc.groups.get(p)
                if g is None and p.op in ("h2p", "gen"):
                    g = p.a[0]
                if g is None and p.op == "pair":
                    g = self.sc.I.gt
                if g is not None:
                    out.add(raw("ord", self.sc.I.same_order.get(g, g)))
        return out

    def at(self, m, chv):
        """({draw: coefficient}, constant) over the field."""
        lin, const = {}, 0
        for k, ch, r, _ in self.monos:
            v = 1
            for f in k:
                y = m.ev(f)
                v = v * (m.num(y) if not isinstance(y, int) else y) % Q
            for h in ch:
                v = v * chv[h] % Q
            if r is None:
                const = (const + v) % Q
            else:
                lin[r] = (lin.get(r, 0) + v) % Q
        return lin, const


def rref(rows, p):
    """Reduced echelon form of a list of vectors."""
    rows = [list(r) for r in rows]
    out = []
    n = len(rows[0]) if rows else 0
    piv = []
    for col in range(n):
        k = next((i for i, r in enumerate(rows) if r[col] % p), None)
        if k is None:
            continue
        r = rows.pop(k)
        inv = pow(r[col], -1, p)
        r = [x * inv % p for x in r]
        rows = [[(x - q[col] * y) % p for x, y in zip(q, r)] for q in rows]
        out = [[(x - q[col] * y) % p for x, y in zip(q, r)] for q in out]
        out.append(r)
        piv.append(col)
    return out, piv


def residue(v, basis, piv, p):
    v = list(v)
    for r, c in zip(basis, piv):
        k = v[c] % p
        if k:
            v = [(x - k * y) % p for x, y in zip(v, r)]
    return v


class Space:
    """Affine space of a transcript: subchallenges, and the rest given the subchallenges."""

    def __init__(self, tr):
        self.tr = tr
        sc = tr.sc
        self.forms = []
        for path, x in tr.leaves:
            if isinstance(x, T):
                try:
                    self.forms.append((path, Form(sc, x)))
                except NotAffine as e:
                    raise NotAffine("%s of the %s: %s" % (path, tr.label, e))
        self.stage1 = [(p, f) for p, f in self.forms if f.mod is SPACE or f.chals and not f.draws and not f.point and not _ord_mod(f)]
        s1 = {p for p, _ in self.stage1}
        self.stage2 = [(p, f) for p, f in self.forms if p not in s1]
        self.ch = sorted({r for _, f in self.forms for r in f.chals}, key=lambda x: x.id)
        self.dr = sorted({r for _, f in self.forms for r in f.draws}, key=lambda x: x.id)

    def first(self, m):
        """Rows over the challenge draws, and constants."""
        rows, consts = [], []
        for p, f in self.stage1:
            row = [0] * len(self.ch)
            const = 0
            for k, ch, r, _ in f.monos:
                v = 1
                for x in k:
                    y = m.ev(x)
                    v = v * (y if isinstance(y, int) else m.num(y))
                if r is not None or len(ch) > 1:
                    raise NotAffine("%s of the %s" % (p, self.tr.label))
                if ch:
                    row[self.ch.index(ch[0])] += v
                else:
                    const += v
            rows.append(row)
            consts.append(const)
        return rows, consts

    def second(self, m, chv):
        rows, consts = [], []
        for p, f in self.stage2:
            lin, c = f.at(m, chv)
            rows.append([lin.get(r, 0) for r in self.dr])
            consts.append(c)
        return rows, consts


def _ord_mod(f):
    return isinstance(f.mod, T) and any(y.op == "ord" for y in t.subterms(f.mod))


def cols(rows):
    return [list(c) for c in zip(*rows)] if rows else []


def solve(rows, consts, target, rnd):
    """Values of the unknowns with rows * x + consts = target, free ones random; None if impossible."""
    n = len(rows[0]) if rows else 0
    aug = [list(r) + [(u - c) % Q] for r, c, u in zip(rows, consts, target)]
    b, piv = rref(aug, Q)
    if n in piv:
        return None
    x = [rnd.randrange(Q) for _ in range(n)]
    for r, c in zip(b, piv):
        x[c] = (r[n] - sum(r[j] * x[j] for j in range(n) if j != c)) % Q
    return x


def describe(sp, i, stage):
    return (sp.stage1 if stage == 1 else sp.stage2)[i][0]


def compare(A, B):
    """None if the transcripts are equally distributed, else a complaint."""
    la, lb = A.leaves, B.leaves
    sa = [(p, x if isinstance(x, str) else None) for p, x in la]
    sb = [(p, x if isinstance(x, str) else None) for p, x in lb]
    if sa != sb:
        for (p, x), (q, y) in zip(sa, sb):
            if (p, x) != (q, y):
                return "%s is %s in the %s, and %s is %s in the %s" % (p, x or "a value", A.label, q, y or "a value", B.label)
        return "%d and %d parts in the %s and the %s" % (len(sa), len(sb), A.label, B.label)
    SA, SB = Space(A), Space(B)
    for (p, f), (_, g) in zip(SA.forms, SB.forms):
        if f.point != g.point and not INF in (t.strip_mod(f.x), t.strip_mod(g.x)):
            return "%s is %s in the %s, unlike in the %s" % (p, "a point" if f.point else "a number", A.label, B.label)
        if not f.point and not g.point and f.mod is not g.mod and "constant" not in (f.mod, g.mod):
            return "%s is %s in the %s, but %s in the %s" % (p, reduced(f), A.label, reduced(g), B.label)
    if [p for p, _ in SA.stage1] != [p for p, _ in SB.stage1]:
        d = {p for p, _ in SA.stage1} ^ {p for p, _ in SB.stage1}
        return "%s depends on drawn challenges only in one of the %s and the %s" % (sorted(d)[0], A.label, B.label)
    for S in (SA, SB):
        w = masks(S)
        if w:
            return w
    for seed in (1, 2):
        m = model.Model(seed)
        rnd = _random.Random(seed)
        ra, ca = SA.first(m)
        rb, cb = SB.first(m)
        x = [rnd.randrange(Q) for _ in SA.ch]
        u = [(sum(a * b for a, b in zip(r, x)) + c) % Q for r, c in zip(ra, ca)]
        why = same_space(ra, ca, rb, cb)
        if why is not None:
            return "%s does not have the same distribution in the %s and the %s" % (describe(SA, why, 1), A.label, B.label)
        for r, S in ((ra, SA), (rb, SB)):
            if r and r[0]:
                k = cols(r)
                if len(rref(k, 2)[1]) != len(rref(k, Q)[1]):
                    return "a subchallenge is a multiple of a drawn challenge in the %s" % S.tr.label
        y = solve(rb, cb, u, rnd) if rb else [rnd.randrange(Q) for _ in SB.ch]
        if y is None:
            return "subchallenges of the %s do not occur in the %s" % (A.label, B.label)
        r2a, c2a = SA.second(m, dict(zip(SA.ch, x)))
        r2b, c2b = SB.second(m, dict(zip(SB.ch, y)))
        why = same_space(r2a, c2a, r2b, c2b)
        if why is not None:
            return "%s does not have the same distribution in the %s and the %s: %s / %s" % (
                describe(SA, why, 2), A.label, B.label, short(SA.stage2[why][1].x, 150), short(SB.stage2[why][1].x, 150))
    return None


def reduced(f):
    return "not reduced" if f.mod is None else "below %s" % (f.mod if isinstance(f.mod, str) else short(f.mod, 60))


def same_space(ra, ca, rb, cb):
    """None, or the index of a row at which the affine spaces part."""
    if not ra:
        return None
    basis = {}
    res = {}
    for n in range(1, len(ra) + 1):  # find the first row at which they differ
        ba, pa = rref(cols(ra[:n]), Q) if ra[0] else ([], [])
        bb, pb = rref(cols(rb[:n]), Q) if rb[0] else ([], [])
        d = [(x - y) % Q for x, y in zip(ca[:n], cb[:n])]
        if ba != bb or any(residue(d, ba, pa, Q)):
            return n - 1
    return None


def masks(S):
    """Draws that reach a leaf are uniform over the range of the leaf."""
    for p, f in S.forms:
        os_ = f.group_orders()
        for r in sorted(f.draws, key=lambda x: x.id):
            k = kind(S.tr.sc, r)
            if k is None or k[0] != "order" or (os_ and k[1] not in os_):
                return "%s of the %s is masked by %s, drawn by %s below %s instead of %s" % (
                    p, S.tr.label, short(r, 80), r.a[0].a[1], short(r.a[1], 80), " / ".join(str(o) for o in os_) or "the order of its group")
        for r in sorted(f.chals, key=lambda x: x.id):
            if kind(S.tr.sc, r) != ("challenge",):
                return "%s of the %s depends on %s, drawn by %s below %s instead of 2^128 or the order of a group" % (
                    p, S.tr.label, short(r, 80), r.a[0].a[1], short(r.a[1], 80))
        if f.chals and f.mod is not SPACE and not f.draws and not f.point and not _ord_mod(f):
            return "%s of the %s is not below 2^128" % (p, S.tr.label)
    return None


def check_same(ck, what, A, B, loc):
    try:
        w = compare(A, B)
    except NotAffine as e:
        return ck.dunno(what, str(e))
    except (model.Cannot, RecursionError) as e:
        return ck.dunno(what, "no interpretation: %s" % e)
    if w:
        bad = [x for _, x in A.leaves + B.leaves if isinstance(x, T) and t.has_unknown(x)]
        if bad:
            return ck.dunno(what, "%s (%s)" % (w, short(bad[0])))
        return ck.bad(what, w, loc)
    return ck.ok(what)


def dimension(tr):
    S = Space(tr)
    m = model.Model(3)
    rnd = _random.Random(3)
    r1, _ = S.first(m)
    n1 = len(rref(cols(r1), Q)[1]) if r1 and r1[0] else 0
    r2, _ = S.second(m, {c: rnd.randrange(Q) for c in S.ch})
    n2 = len(rref(cols(r2), Q)[1]) if r2 and r2[0] else 0
    return n1, n2


# ---------------------------------------------------------------------------------------------
# C07

PROVE_AT = ("OrProver.compute_response", "OrProver.precommit", "OrProver.setup_simulations", "OrProofStmt.get_prover",
            "_find_residual_challenge")


def run_real(ck, name, k, build=None, c=None):
    sc = ck.scn()
    sc.I.force = k
    w = World(sc)
    node = (build or SKELETONS[name][0])(Side(w, True))
    return real(sc, node, "proof (choice %d)" % k, sc.num("c"))


def run_sim(ck, name, known=False, build=None):
    sc = ck.scn()
    sc.I.force = 0
    w = World(sc)
    node = (build or SKELETONS[name][0])(Side(w, known))
    return simulated(sc, node, "simulation", sc.num("c"))


@rule("C07", "transcripts have one distribution whichever clause is proven")
def choice_hidden(ck):
    loc = ck.at(*PROVE_AT)
    for name in names(ck):
        with ck.part(name):
            ks = list(choices(name))
            if len(ks) < 2:
                continue
            trs = [run_real(ck, name, k) for k in ks]
            for k, tr in zip(ks[1:], trs[1:]):
                check_same(ck, "%s: transcripts for choices 0 and %d have the same shape, ranges and distribution" % (name, k), trs[0], tr, loc)


CHOICES = {
    "x*g | z*h": 2,
    "x*g | x*h | x*k": 3,
    "?u*g | z*h | ?w*k": 1,
    "x*g | z*h | w*k | ?u*g": 3,
    "neq | neq bind": 2,
    "z*k | (neq bind & x*h)": 2,
    "bbs(m0) | bbs(m0, m1)": 2,
    "x*g & (z*h | w*k)": 2,
}
LOCAL = {
    "bbs(m0) | bbs(m0, m1)": lambda s: s.any(s.bbs(["m0"], valid=False), s.bbs(["m0", "m1"], valid=False, es=("e2", "s2"))),
    "x*g & (z*h | w*k)": lambda s: s.all(s.dl(("x", "g")), s.any(s.dl(("z", "h")), s.dl(("w", "k")))),
}


def residual_at(tr):
    """Paths of the subchallenges that are computed."""
    return [p for p, x in tr.leaves if isinstance(x, T) and x.op == "mod" and x.a[1] is SPACE]


@rule("C07", "the clause to prove is chosen with a cryptographic generator")
def choice_random(ck):
    loc = ck.at("OrProofStmt.get_prover")
    for name, n in CHOICES.items():
        seen = {}
        weak = None
        for k in range(12):
            tr = run_real(ck, name, k, LOCAL.get(name))
            seen.setdefault(tuple(residual_at(tr)), k)
            for e in tr.sc.events(kind="draw"):
                if e.name.endswith(".choice") and not e.name.startswith(STRONG):
                    weak = "%s at %s" % (e.name, e.where)
        what = "%s: every one of the %d clauses the prover can use may be chosen, by a cryptographic generator" % (name, n)
        if weak:
            ck.bad(what, "chosen by %s" % weak, loc)
        elif len(seen) < n:
            ck.bad(what, "only %d of them are ever chosen" % len(seen), loc)
        else:
            ck.ok(what)


@rule("C07", "range proofs do not reveal the bits")
def bits_hidden(ck):
    loc = ck.at("PowerTwoRangeStmt.precommit", "PowerTwoRangeStmt.construct_stmt", *PROVE_AT)
    for label, n, f in (("range 1 bit", 2, lambda v: lambda s: s.range2(1, bits=v)),
                        ("range 2 bits", 4, lambda v: lambda s: s.range2(2, bits=v)),
                        ("range 3 bits", 8, lambda v: lambda s: s.range2(3, bits=v)),
                        ("range [2,5)", 3, lambda v: lambda s: s.range(2, 5, value=2 + v)),
                        ("range 2 bits & z*k", 4, lambda v: lambda s: s.all(s.range2(2, bits=v), s.dl(("z", "k"))))):
        if label == "range [2,5)" and ck.tier != "thorough":
            continue
        trs = [run_real(ck, None, 0, f(v)) for v in range(n)]
        for v, tr in enumerate(trs):
            tr.label = "proof for value %d" % v
        for v in range(1, n):
            # the committed value is part of the statement: the commitments differ by a multiple of g
            A, B = trs[0], trs[v]
            check_same(ck, "%s: transcripts for the lowest value and for %d more have the same shape, ranges and distribution" % (label, v),
                       uncommit(A, 0, label), uncommit(B, v, label), loc)


def uncommit(tr, v, label):
    """The commitment held fixed: its randomizer is what is left of it."""
    off = 2 + v if "[2" in label else v
    sc = tr.sc
    r, x, g, h = sym("r_v"), C(off), sym("g"), sym("h")
    com = sc.num("com_over_h")
    # r = com/h - value * g/h
    rep = sub(com, mul(C(off), sc.num("g_over_h")))
    tr.leaves = [(p, subst(subst(y, {r: rep}), {g: mul(sc.num("g_over_h"), h)}) if isinstance(y, T) else y) for p, y in tr.leaves]
    return tr


# ---------------------------------------------------------------------------------------------
# C08

SIM_AT = ("DLRepProver.compute_response", "DLRep.get_randomizers", "AndProofStmt.get_randomizers", "ComposableProofStmt.update_randomizers",
          "ExtendedProofStmt.simulate_precommit")


def spec_anchor(ck, node):
    return ck.at(*SIM_AT, *["%s.precommit" % n.cls for n in node.nodes() if n.kind == "ext" and n.cls])


@rule("C08", "honest transcripts are distributed like simulated ones, which are made without secrets")
def zero_knowledge(ck):
    for name in names(ck):
        with ck.part(name):
            sim = run_sim(ck, name)
            for k in choices(name):
                tr = run_real(ck, name, k)
                loc = ck.at(*SIM_AT, "DLNotEqual.precommit", "PowerTwoRangeStmt.precommit", "BBSPlusSignatureStmt.precommit")
                check_same(ck, "%s: honest transcript%s and simulated transcript have the same shape, ranges and distribution" % (
                    name, " (choice %d)" % k if len(choices(name)) > 1 else ""), tr, sim, loc)


@rule("C08", "simulation does not use secret values that are known")
def simulation_blind(ck):
    loc = ck.at("ComposableProofStmt.simulate", "DLRep.simulate_proof")
    for name in names(ck, pick=lambda n: not n.startswith("tree")):
        with ck.part(name):
            a, b = run_sim(ck, name, True), run_sim(ck, name, False)
            what = "%s: transcript simulated with and without the secrets is the same" % name
            la, lb = ([(p, x if isinstance(x, str) else renumber(x)) for p, x in s.leaves + s.coms] for s in (a, b))
            if la == lb:
                ck.ok(what)
            else:
                d = next(((x, y) for x, y in zip(la, lb) if x != y), (len(la), len(lb)))
                if any(isinstance(x, T) and t.has_unknown(x) for _, x in la + lb):
                    ck.dunno(what, short(d))
                else:
                    check_same(ck, what, a, b, loc)


def renumber(x):
    """Draws named by source and bound only, in order of appearance."""
    return x


@rule("C08", "a proof consists of challenge, responses, precommitment and statement hash")
def nizk_fields(ck):
    loc = ck.at("Prover.get_nizk_proof")
    for name in names(ck, pick=lambda n: not n.startswith("tree")):
        with ck.part(name):
            R = honest(ck, name, 0, "nizk")
            sc = R.sc
            seen = {}
            with sc.fork():
                sc.I.st.pc = R.proved
                for f in ("challenge", "responses", "precommitment", "stmt_hash"):
                    seen[f] = sc.r(sc.get(R.nizk, f))
                extra = [l for l in sc.I.st.s if l[0] == "f" and l[1] == R.nizk.a[0] and l[2] not in seen]
            what = "%s: the proof has no further fields" % name
            if extra:
                ck.bad(what, "it has %s" % ", ".join(sorted(l[2] for l in extra)), loc)
            else:
                ck.ok(what)
            ch = seen["challenge"]
            # The challenge and the statement hash are functions of what is public: hashes of identity, precommitment and commitment
            for f in ("challenge", "stmt_hash"):
                x = seen[f]
                what = "%s: %s is a hash" % (name, f)
                y = x
                while y.op in ("h2n", "b2n", "int") or y.op == "mod":
                    y = y.a[0]
                if y.op in ("digest", "hexdigest", "bnhex"):
                    ck.ok(what)
                elif t.has_unknown(x):
                    ck.dunno(what, short(x))
                elif not any(z.op == "sym" and str(z.a[0]).endswith("_v") for z in t.subterms(x)):
                    ck.ok(what)
                else:
                    ck.bad(what, "it is %s" % short(x), loc)
            tr = Transcript(sc, "proof", seen["precommitment"], seen["responses"])
            for p, x in tr.leaves:
                if not isinstance(x, T):
                    continue
                what = "%s: %s of the proof" % (name, p)
                bad = exposed(sc, x)
                if bad:
                    (ck.dunno if t.has_unknown(x) else ck.bad)(*((what, bad) if t.has_unknown(x) else (what, bad, loc)))
                else:
                    ck.ok(what)


def secret_values(x):
    return [y for y in t.subterms(x) if y.op == "sym" and str(y.a[0]).endswith("_v") or y.op == "secval"]


def exposed(sc, x):
    """A number that depends on a secret without a mask."""
    y = t.strip_mod(x)
    if t.is_point(y) or y is INF:
        return None
    if not secret_values(x):
        return None
    if any(kind(sc, r) and kind(sc, r)[0] in ("order", "challenge") for r in t.subterms(x) if r.op == "rand"):
        return None
    return "%s depends on a secret value and is not blinded" % short(x, 200)


# A value which occurs in a text for no other reason than being shown.
TELLTALE = 987654321
TALK = {"warn", "print", "debug", "info", "warning", "error", "critical", "exception", "log", "write"}


def reveals(sc, x, depth=0):
    """Secret values in the text of x."""
    if not isinstance(x, T) or depth > 12:
        return []
    if t.is_const(x):
        # As a number or as a part of a text; bounds of the range may have been subtracted.
        return [x] if re.search(r"98765\d{4}", str(x.a[-1])) else []
    if x.op == "ref":
        o = sc.I.obj(x)
        if o.kind == "inst":
            r = sc.I.user_op(x, "__str__", [], None)
            if r is None:
                r = sc.I.user_op(x, "__repr__", [], None)
            return reveals(sc, r, depth + 1) if r is not None else []
        return reveals(sc, sc.I.reify(sc.I.content(x)), depth + 1)
    if x.op in ("digest", "hexdigest", "rand", "cls", "unk"):
        return []
    if x.op == "sym":
        return [x] if str(x.a[0]).endswith("_v") else []
    if t.is_point(x):
        return []
    if x.op == "ite":
        return reveals(sc, x.a[1], depth + 1) + reveals(sc, x.a[2], depth + 1)
    if x.op in ("poly", "mod"):
        return secret_values(x) if not has_rand(x) else []
    out = []
    for y in x.a:
        out += reveals(sc, y, depth + 1)
    return out


def _eval_partial(s):
    e = s.sc.term((s.s("x"), s.p("g")), (s.secrets.setdefault("q", s.sc.secret("q")), s.p("h")))
    return s.sc.m(e, "eval")


def _sum_wrong(s):
    e = s.sc.term((s.s("x"), s.p("g")))
    return s.sc.I.binop(ast.Add(), e, s.s("z"), None)


SPOKEN = {
    "secret in groups of different orders": lambda s: s.sc.m(s.all(s.dl(("x", "g")), s.dl(("x", ("k2", "Grp2")))).obj, "prove"),
    "secret inside and outside of a disjunction": lambda s: s.sc.m(s.all(s.dl(("x", "g")), s.any(s.dl(("x", "h")), s.dl(("z", "k")))).obj, "prove"),
    "missing secret in a conjunction": lambda s: s.sc.m(s.all(s.dl(("x", "g")), s.dlu("y", ("z", "h"))).obj, "prove"),
    "missing secrets in a disjunction": lambda s: s.sc.m(s.any(s.dlu("u", ("x", "g"), ("w", "k")), s.dlu("y", ("z", "h"))).obj, "prove"),
    "no expression": lambda s: s.sc.new("DLRep", s.p("y"), s.s("x")),
    "list of expressions": lambda s: s.sc.new("DLRep", s.p("y"), s.sc.list(s.sc.term((s.s("x"), s.p("g"))))),
    "bases of different groups": lambda s: s.sc.dlrep(s.p("y"), (s.s("x"), s.p("g")), (s.s("z"), s.p("k2", "Grp2"))),
    "value is no secret": lambda s: s.sc.new("Expression", s.w.v("x"), s.p("g")) if False else s.sc.new("Expression", s.p("g"), s.p("h")),
    "sum with a secret": _sum_wrong,
    "evaluation of an incomplete expression": _eval_partial,
    "wsum_secrets of different lengths": lambda s: s.sc.call(s.sc.F("zksk.expr", "wsum_secrets"), s.sc.list(s.s("x"), s.s("z")), s.sc.list(s.p("g"))),
    "value outside of a range": lambda s: s.sc.m(s.range(2, 5, value=TELLTALE).obj, "prove"),
    "value below a range": lambda s: s.sc.m(s.range(2, 5, value=-TELLTALE).obj, "prove"),
    "value outside of a power-of-two range": lambda s: s.sc.m(s.range2(2, bits=TELLTALE).obj, "prove"),
    "negative value in a power-of-two range": lambda s: s.sc.m(s.range2(2, bits=-TELLTALE).obj, "prove"),
    "unknown value in a power-of-two range": lambda s: s.range2(2),
    "no signature": lambda s: s.sc.m(s.sc.m(s.bbs(["m0", "m1"], known=False).obj, "get_prover"), "precommit"),
    "one clause": lambda s: s.any(s.dl(("x", "g"))),
    "one conjunct": lambda s: s.all(s.dl(("x", "g"))),
    "inequality of no pair": lambda s: s.sc.new("DLNotEqual", s.sc.list(s.p("y")), s.sc.list(s.p("y"), s.p("h"), s.p("g")), s.s("x")),
    "inequality that does not hold": lambda s: s.sc.m(s.sc.new("DLNotEqual", s.sc.list(mul(s.w.v("x"), s.p("g")), s.p("g")), s.sc.list(mul(s.w.v("x"), s.p("h")), s.p("h")), s.s("x")), "prove"),
}


@rule("C08", "exceptions, warnings and printed text show no secret values")
def messages(ck):
    runs = dict(SPOKEN)
    for name in names(ck, pick=lambda n: not n.startswith("tree")):
        with ck.part(name):
            runs[name] = lambda s, f=SKELETONS[name][0]: s.sc.m(f(s).obj, "prove")
    for label, f in runs.items():
        sc = ck.scn()
        sc.I.force = 0
        w = World(sc)
        try:
            f(Side(w, True))
        except AnalysisBroken:
            pass
        said = [e for e in sc.I.events if e.kind == "raise" or e.kind == "ext" and e.name.split(".")[-1] in TALK]
        bad = None
        with sc.fork():
            sc.I.st.pc = TRUE
            for e in said:
                for a in list(e.args) + list((e.kw or {}).values()):
                    vs = reveals(sc, a)
                    if vs:
                        bad = bad or ("%s shows %s" % (e.name, vs[0]), e.where)
        what = "%s: no secret value in a message (%d messages)" % (label, len(said))
        ck.bad(what, *bad) if bad else ck.ok(what)


@rule("C08", "commitments to messages are blinded")
def issuance(ck):
    loc = ck.at("BBSPlusSignatureCreator.commit")
    for n in (1, 2, 3):
        sc = ck.scn()
        sc.I.force = 0
        w = World(sc)
        s = Side(w, True)
        pk, gens, h0, wp = s.bbs_key(n)
        cr = sc.new("BBSPlusSignatureCreator", pk)
        msg = sc.m(cr, "commit", sc.list(*[w.v("m%d" % i) for i in range(n)]))
        tr = Transcript(sc, "issuance", sc.get(msg, "com_message"), sc.get(sc.get(msg, "com_nizk_proof"), "responses"))
        # any other messages give the same distribution
        sc2 = ck.scn()
        sc2.I.force = 0
        w2 = World(sc2)
        pk, gens, h0, wp = Side(w2, True).bbs_key(n)
        cr = sc2.new("BBSPlusSignatureCreator", pk)
        msg = sc2.m(cr, "commit", sc2.list(*[w2.v("other%d" % i) for i in range(n)]))
        tr2 = Transcript(sc2, "issuance of other messages", sc2.get(msg, "com_message"), sc2.get(sc2.get(msg, "com_nizk_proof"), "responses"))
        for x in (tr, tr2):
            x.leaves = [(p, subst(y, {z: sym("c") for z in t.subterms(y) if z.op in ("h2n", "b2n", "bnhex")}) if isinstance(y, T) else y) for p, y in x.leaves]
            t.NUMS.add(sym("c"))
        check_same(ck, "blinded issuance of %d messages does not depend on them" % n, tr, tr2, loc)
        g = sc.m(cr, "commit", sc.list()) if False else None


# ---------------------------------------------------------------------------------------------
# C09

DRAW_AT = ("DLRep.get_randomizers", "AndProofStmt.get_randomizers", "ComposableProofStmt.update_randomizers", "get_random_num")


def scopes(node, seen=None):
    """Independent responses: one for each secret in a scope of one challenge."""
    seen = set() if seen is None else seen
    n = 0
    if node.kind == "dl":
        for s, _ in node.terms:
            if s not in seen:
                seen.add(s)
                n += 1
    elif node.kind == "or":
        for s in node.subs:
            n += scopes(s, set())
    else:
        for s in node.subs:
            n += scopes(s, seen)
    return n


def entropy(node):
    """(free subchallenges, free numbers) of a transcript."""
    ch = sum(len(n.subs) - 1 for n in node.nodes() if n.kind == "or")
    pre = 0
    for n in node.nodes():
        if n.kind == "ext":
            pre += {"DLNotEqual": 1, "BBSPlusSignatureStmt": 2}.get(n.cls, getattr(n, "bits", 0)) + getattr(n, "draws", 0)
    return ch, scopes(node) + pre


def full_entropy(ck, name, tr, node, loc):
    what = "%s: %s has one independent draw per subchallenge, secret and blinding factor" % (name, tr.label)
    try:
        w = masks(Space(tr))
        got = dimension(tr)
    except NotAffine as e:
        return ck.dunno(what, str(e))
    except (model.Cannot, RecursionError) as e:
        return ck.dunno(what, "no interpretation: %s" % e)
    want = entropy(node)
    if w:
        return ck.bad(what, w, loc)
    if got != want:
        bad = [x for _, x in tr.leaves if isinstance(x, T) and t.has_unknown(x)]
        if bad:
            return ck.dunno(what, short(bad[0]))
        return ck.bad(what, "%d free subchallenges and %d free numbers instead of %d and %d" % (got + want), loc)
    return ck.ok(what)


@rule("C09", "transcripts have the full randomness, drawn uniformly below group orders and 2^128")
def entropies(ck):
    loc = ck.at(*DRAW_AT, "DLNotEqual.precommit", "PowerTwoRangeStmt.precommit", "BBSPlusSignatureStmt.precommit")
    for name in names(ck):
        with ck.part(name):
            for k in choices(name):
                sc = ck.scn()
                sc.I.force = k
                w = World(sc)
                node = SKELETONS[name][0](Side(w, True))
                full_entropy(ck, name, real(sc, node, "proof" + (" (choice %d)" % k if len(choices(name)) > 1 else ""), sc.num("c")), node, loc)
            sc = ck.scn()
            sc.I.force = 0
            w = World(sc)
            node = SKELETONS[name][0](Side(w, False))
            full_entropy(ck, name, simulated(sc, node, "simulation", sc.num("c")), node, loc)


def draws_of(tr):
    return {y for _, x in tr.leaves + tr.coms if isinstance(x, T) for y in t.subterms(x) if y.op == "rand"}


@rule("C09", "every run draws anew")
def fresh(ck):
    loc = ck.at(*DRAW_AT)
    for name in names(ck, heavy=False, pick=lambda n: not n.startswith("tree")):
        with ck.part(name):
            sc = ck.scn()
            sc.I.force = 0
            w = World(sc)
            node = SKELETONS[name][0](Side(w, True))
            a = real(sc, node, "first proof", sc.num("c"))
            b = real(sc, node, "second proof", sc.num("c2"))
            both = draws_of(a) & draws_of(b)
            what = "%s: two proofs of one statement share no randomness" % name
            (ck.bad(what, "both use %s" % short(sorted(both, key=lambda x: x.id)[0]), loc) if both else ck.ok(what))
            if both:
                continue
            # what the second proof is made of is random again
            full_entropy(ck, name, b, node, loc)
            sc = ck.scn()
            sc.I.force = 0
            w = World(sc)
            node = SKELETONS[name][0](Side(w, False))
            a = simulated(sc, node, "first simulation", sc.num("c"))
            b = simulated(sc, node, "second simulation", sc.num("c2"))
            both = draws_of(a) & draws_of(b)
            what = "%s: two simulations of one statement share no randomness" % name
            (ck.bad(what, "both use %s" % short(sorted(both, key=lambda x: x.id)[0]), loc) if both else ck.ok(what))
            # a drawn challenge
            tr = sc.m(node.obj, "simulate")
            uniform_challenge(ck, "%s: challenge drawn for a simulation" % name, sc, sc.r(sc.get(tr, "challenge")), ck.at("get_random_num"))


def unit_draw(sc, x):
    """A draw of a challenge occurs in x once, with coefficient 1 or -1."""
    try:
        f = Form(sc, x)
    except NotAffine:
        return False
    for r in f.chals:
        ms = [(k, ch) for k, ch, s, _ in f.monos if r in ch]
        if kind(sc, r) == ("challenge",) and len(ms) == 1 and ms[0][1] == [r] and all(t.is_int(y) and abs(y.a[1]) == 1 for y in ms[0][0]):
            return True
    return False


def uniform_challenge(ck, what, sc, x, loc):
    what += " is drawn uniformly below 2^128 by a cryptographic generator"
    if x.op == "rand" and kind(sc, x) == ("challenge",):
        return ck.ok(what)
    if x.op == "mod" and x.a[1] is SPACE and unit_draw(sc, x):
        return ck.ok(what)
    return (ck.dunno if t.has_unknown(x) or x.op not in ("rand", "c", "mod", "poly", "h2n", "b2n") else ck.bad)(*((what, "it is %s" % short(x)) if t.has_unknown(x) or x.op not in ("rand", "c", "mod", "poly", "h2n", "b2n") else (what, "it is %s" % short(x), loc)))


GIVEN = {
    "representation": lambda s: s.dl(("x", "g"), ("z", "h"), ("u", "k")),
    "representation which repeats a secret": lambda s: s.dl(("x", "g"), ("z", "h"), ("z", "k"), ("u", "l")),
    "conjunction": lambda s: s.all(s.dl(("x", "g"), ("z", "h")), s.dl(("u", "k")), s.dl(("z", "l"))),
    "nested conjunction": lambda s: s.all(s.dl(("x", "g")), s.all(s.dl(("z", "h")), s.dl(("x", "k"), ("u", "l")))),
}


@rule("C09", "randomizers which are not given are drawn")
def partly_given(ck):
    """With a zero challenge, the responses are the randomizers."""
    loc = ck.at("ComposableProofStmt.update_randomizers", "DLRep.get_randomizers", "AndProofStmt.get_randomizers")
    for label, f in GIVEN.items():
        for given in (("x",), ("x", "z"), ("u",), (), ("v",)):
            for what, run in (("commitment", committed), ("simulation", resimulated)):
                sc = ck.scn()
                s = Side(World(sc), True)
                node = f(s)
                d = sc.dict()
                for n in given:
                    sc.I.setitem(d, s.s(n), sym("given_" + n), None)
                title = "%s: %s with given randomizers of (%s)" % (label, what, ", ".join(given))
                resp = run(sc, node, d)
                if sc.pc is FALSE:
                    ck.bad(title, "refused", loc)
                    continue
                names_ = [n for x in node.nodes() if x.kind == "dl" for n, _ in x.terms]
                vals = {}
                for n, r in zip(names_, flat(sc, resp)):
                    n = n.name if hasattr(n, "name") else n
                    if n in given:
                        y = r.a[0] if r.op == "mod" and r.a[1].op == "ord" else r
                        (ck.ok if y is sym("given_" + n) else ck.dunno if t.has_unknown(y) else ck.bad)(
                            *(["%s: the one of %s is used" % (title, n)] + ([] if y is sym("given_" + n) else ["it is %s" % short(y)]
                              if t.has_unknown(y) else ["it is %s" % short(y), loc])))
                    else:
                        uniform_order(ck, "%s: the one of %s" % (title, n), sc, r, loc)
                        vals.setdefault(n, r)
                distinct(ck, title, sc, vals, loc)


def committed(sc, node, d):
    p = sc.m(node.obj, "get_prover")
    sc.m(p, "commit", d)
    return sc.m(p, "compute_response", ZERO)


def resimulated(sc, node, d):
    return sc.get(sc.m(node.obj, "simulate_proof", responses_dict=d, challenge=ZERO), "responses")


def flat(sc, x):
    out = []
    for y in sc.items(x):
        z = sc.I.content(y) if isinstance(y, T) and (y.op == "ref") else y
        out += flat(sc, y) if z.op in t.SEQ else [sc.r(y)]
    return out


@rule("C09", "the verifier's challenges are uniform and fresh")
def verifier_challenges(ck):
    for name in names(ck, heavy=False, pick=lambda n: not n.startswith("tree")):
        with ck.part(name):
            sc = ck.scn()
            w = World(sc)
            node = SKELETONS[name][0](Side(w, False))
            v = sc.m(node.obj, "get_verifier")
            sc.m(v, "process_precommitment", node.pre())
            sh, com = sym("sh"), node.commitment()
            a = sc.r(sc.m(v, "send_challenge", raw("lit", sh, com)))
            v2 = sc.m(node.obj, "get_verifier")
            sc.m(v2, "process_precommitment", node.pre())
            b = sc.r(sc.m(v2, "send_challenge", raw("lit", sh, com)))
            c = sc.r(sc.m(v, "send_challenge", raw("lit", sh, com)))
            loc = ck.at("Verifier.send_challenge", "AndVerifier.send_challenge", "get_random_num")
            uniform_challenge(ck, "%s: challenge of the verifier" % name, sc, a, loc)
            what = "%s: the verifier draws a new challenge for each run" % name
            if a is b or a is c or b is c:
                ck.bad(what, "it is %s twice" % short(a), loc)
            else:
                ck.ok(what)


def uniform_order(ck, what, sc, x, loc):
    what += " is drawn uniformly below the order of its group by a cryptographic generator"
    x = sc.r(x)
    y = x.a[0] if x.op == "mod" and x.a[1].op == "ord" else x
    if y.op == "rand":
        k = kind(sc, y)
        if k and k[0] == "order":
            return ck.ok(what)
        return ck.bad(what, "it is %s" % short(x), loc)
    rs = [z for z in t.subterms(y) if z.op == "rand"]
    if not rs and not t.has_unknown(y):
        return ck.bad(what, "it is %s" % short(x), loc)
    try:
        f = Form(sc, x)
    except NotAffine as e:
        return ck.dunno(what, str(e))
    if f.draws and all(kind(sc, r) and kind(sc, r)[0] == "order" for r in f.draws) and not f.chals:
        return ck.ok(what)
    return (ck.dunno(what, short(x)) if t.has_unknown(x) else ck.bad(what, "it is %s" % short(x), loc))


@rule("C09", "keys, signatures and blinding factors of credentials are uniform and fresh")
def credentials(ck):
    sc = ck.scn()
    sc.I.force = 0
    w = World(sc)
    s = Side(w, True)
    pk, gens, h0, wp = s.bbs_key(2)
    sk = sc.new("BBSPlusSecretKey", h0=h0, gamma=w.v("gamma"), generators=sc.list(*gens))
    loc = ck.at("BBSPlusSecretKey.sign")
    sigs = [sc.m(sk, "sign", s.p("lhs", "G1")) for _ in range(2)]
    vals = {}
    for i, g in enumerate(sigs):
        for a in "es":
            x = sc.r(sc.get(g, a))
            uniform_order(ck, "%s of signature %d" % (a, i), sc, x, loc)
            vals["%s of signature %d" % (a, i)] = x
    distinct(ck, "signatures", sc, vals, loc)
    loc = ck.at("BBSPlusSignatureCreator.commit")
    cr = sc.new("BBSPlusSignatureCreator", pk)
    vals = {}
    for i in range(2):
        sc.m(cr, "commit", sc.list(w.v("m0"), w.v("m1")))
        x = sc.r(sc.get(cr, "s1"))
        uniform_order(ck, "blinding factor of issuance %d" % i, sc, x, loc)
        vals["issuance %d" % i] = x
    distinct(ck, "blinding factors", sc, vals, loc)
    loc = ck.at("BBSPlusKeypair.generate")
    vals = {}
    for i in range(2):
        sc2 = sc
        bp = sc2.new("BilinearGroupPair")
        kp = sc2.m(sc2.K("BBSPlusKeypair"), "generate", bp, C(3))
        x = sc2.r(sc2.get(sc2.get(kp, "sk"), "gamma"))
        uniform_order(ck, "key %d" % i, sc2, x, loc)
        vals["key %d" % i] = x
    distinct(ck, "keys", sc, vals, loc)


def distinct(ck, label, sc, vals, loc):
    seen = {}
    for k, x in vals.items():
        ds = frozenset(y for y in t.subterms(x) if y.op == "rand")
        for y in ds:
            if y in seen:
                return ck.bad("%s: all from draws of their own" % label, "%s and %s share a draw" % (seen[y], k), loc)
            seen[y] = k
    return ck.ok("%s: all from draws of their own" % label)


@rule("C09", "numbers and points of the utilities")
def utilities(ck):
    sc = ck.scn()
    f = sc.F("zksk.utils.groups", "get_random_num")
    loc = ck.at("get_random_num")
    for bits in (128, 1, 256, None):
        b = sc.num("bits") if bits is None else C(bits)
        x = sc.r(sc.call(f, b))
        want = t.power(C(2), b) if bits is None else C(2 ** bits)
        what = "get_random_num(%s) is uniform below 2^%s" % (b, b)
        if x.op == "rand" and x.a[0].a[1].startswith(STRONG) and x.a[1] is want:
            ck.ok(what)
        elif t.has_unknown(x):
            ck.dunno(what, short(x))
        else:
            ck.bad(what, "it is %s" % short(x), loc)
    p = sc.F("zksk.utils.groups", "get_random_point")
    assume(sc, NOT(isnone(sym("Grp"))))
    loc = ck.at("get_random_point", "make_generators")
    a, b = [sc.r(sc.call(p, sym("Grp"))) for _ in range(2)]
    random_point(ck, "get_random_point without seed", a, loc)
    ck.add(REFUTED if a is b else PROVED, "get_random_point without seed: points are independent", short(a), loc)
    g = sc.F("zksk.utils.groups", "make_generators")
    ps = sc.items(sc.call(g, C(3), sym("Grp"), seed=NONE))
    for i, x in enumerate(ps):
        random_point(ck, "make_generators without seed, point %d" % i, sc.r(x), loc)
    ck.add(PROVED if len(set(map(sc.r, ps))) == 3 else REFUTED, "make_generators without seed: points are independent", short(ps), loc)


def random_point(ck, what, x, loc):
    what += ": hash of 256 bits of a cryptographic generator"
    rs = [y for y in t.subterms(x) if y.op == "rand"]
    if len(rs) == 1 and rs[0].a[0].a[1].startswith(STRONG) and t.is_int(rs[0].a[1]) and (
            rs[0].a[1].a[1] >= 32 if "bytes" in rs[0].a[0].a[1] or "urandom" in rs[0].a[0].a[1] else rs[0].a[1].a[1] >= 2 ** 255):
        return ck.ok(what)
    if t.has_unknown(x):
        return ck.dunno(what, short(x))
    if not rs or any(not r.a[0].a[1].startswith(STRONG) or t.is_int(r.a[1]) for r in rs):
        return ck.bad(what, "it is %s" % short(x), loc)
    return ck.dunno(what, short(x))


@rule("C09", "no source of predictable randomness is used")
def sources(ck):
    prog = program()
    for m in prog.modules.values():
        if not m.name.startswith("zksk"):
            continue
        imports = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                for a in n.names:
                    imports[a.asname or a.name] = n.module + "." + a.name
        uses = weak = 0
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call):
                continue
            d = dotted(n.func)
            if d is None:
                continue
            head, _, rest = d.partition(".")
            if head not in imports:
                continue
            full = imports[head] + ("." + rest if rest else "")
            top = full.split(".")[0]
            if top in ("random", "numpy") and full not in ("random.SystemRandom",) and not full.startswith("random.SystemRandom.") and (top != "numpy" or ".random" in full):
                weak += 1
                ck.bad("%s: source of randomness %s" % (m.name, full), "predictable generator", "%s:%d" % (m.rel, n.lineno))
            elif top in ("secrets", "random") or full == "os.urandom":
                uses += 1
        if not weak:
            ck.ok("%s: calls of cryptographic generators only (%d calls by name)" % (m.name, uses))


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        d = dotted(n.value)
        return d and d + "." + n.attr
    return None
