"""Representations of discrete logarithms: honest runs, simulation, consistency, refusal."""

from .common import *


@rule("C01", "DLRep: recomputed commitment equals the commitment")
def dlrep_complete(ck):
    for how in ("fresh", "given"):
        sc = ck.scn()
        d, lhs, S, B, n = dlrep_n(sc)
        vals = sym("VALS")
        p, cond = prover_of(sc, d, sc.dict(vals))
        if p is None:
            ck.bad("a representation with known secrets has a prover")
            return
        pc0 = sc.pc
        if how == "fresh":
            com = sc.r(sc.m(p, "internal_commit"))
        else:
            R = sym("RND")
            com = sc.r(sc.m(p, "internal_commit", sc.dict(R)))
        c = sym("c")
        resp = sc.m(p, "compute_response", c)
        rec = sc.r(sc.m(d, "recompute_commitment", c, resp))
        # the left-hand side of a true statement
        v = fresh_var()
        true_lhs = seqsum(n, lam(v, mul(secret_value(S, v, vals), item(B, v))))
        rec, com = sc.I.under(rec), sc.I.under(com)
        diff = subst(t.strip_mod(sub(rec, com), lambda m: m.op == "ord"), {lhs: true_lhs})
        what = "for all lengths, secrets, challenges: recompute_commitment(c, response) = commitment (%s randomizers)" % how
        if zero_sum(diff):
            ck.ok(what, "commitment %s; recomputed %s" % (short(com), short(rec)))
        else:
            ck.same(what, subst(rec, {lhs: true_lhs}), com, modq=True,
                    where=ck_where(sc, "recompute_commitment"))
        ck.same("as many responses as secrets (%s randomizers)" % how, length(sc.seq(resp)), n)


def ck_where(sc, name):
    try:
        return ", ".join(f.where for f in sc.prog.implementations(sc.prog.cls("DLRep"), name))
    except Exception:
        return ""
