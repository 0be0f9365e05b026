"""Simulated transcripts: they satisfy the verification equation and look like real ones."""

from .common import *
from .skeletons import *
from .protocol import bound, flat_points, raised
from .secrecy import Transcript, simulated, real, compare, NotAffine, flatten, SPACE

SIM = ("ComposableProofStmt.simulate", "ComposableProofStmt.verify_simulation_consistency")


def classes(ck, node, *more):
    cs = []
    for n in node.nodes():
        if n.cls and n.cls not in cs:
            cs.append(n.cls)
    return ck.at(*more, *["%s.simulate_proof" % c for c in cs], *["%s.simulate_precommit" % c for c in cs if c not in ("DLRep", "AndProofStmt", "OrProofStmt")])


def simulate(ck, name, known, drawn, second=False):
    sc = ck.scn()
    sc.I.force = 0
    w = World(sc)
    node = SKELETONS[name][0](Side(w, known))
    kw = {} if drawn else {"challenge": sc.num("c")}
    tr = sc.m(node.obj, "simulate", **kw)
    if second:
        tr = sc.m(node.obj, "simulate", **kw)
    return sc, w, node, tr


@rule("C18", "simulated transcripts satisfy the verification equation")
def consistent(ck):
    for name in names(ck):
        with ck.part(name):
            for known, drawn, second in ((False, False, False), (False, True, True), (True, False, False)):
                if (known or second) and name.startswith("tree") and ck.tier != "thorough":
                    continue
                sc, w, node, tr = simulate(ck, name, known, drawn, second)
                loc = classes(ck, node, *SIM)
                label = "%s: transcript simulated %s%s for a %s challenge" % (
                    name, "with known secrets" if known else "without secrets", " again" if second else "", "drawn" if drawn else "given")
                if not sc.alive():
                    ck.bad(label, "simulation fails%s" % raised(sc), loc)
                    continue
                if not drawn:
                    ck.same("%s: it has the challenge given" % label, sc.r(sc.get(tr, "challenge")), sc.num("c"), loc)
                node2 = SKELETONS[name][0](Side(w_like(w), False))
                r = sc.m(node2.obj, "verify_simulation_consistency", tr)
                acc = point_norm(sc, sc.accept(r))
                if acc is FALSE:
                    ck.bad("%s satisfies the verification equation" % label, "it does not%s" % raised(sc), loc)
                else:
                    ck.holds("%s satisfies the verification equation" % label, acc, where=loc)


@rule("C18", "simulated transcripts have the shape of real ones and the identity of their statement")
def shapes(ck):
    for name in names(ck):
        with ck.part(name):
            sc, w, node, tr = simulate(ck, name, False, False)
            loc = classes(ck, node, *SIM)
            sim = Transcript(sc, "simulated transcript", sc.get(tr, "precommitment"), sc.get(tr, "responses"), sc.get(tr, "commitment"))
            h = sc.r(sc.get(tr, "stmt_hash"))
            node2 = SKELETONS[name][0](Side(w_like(w), False))
            if node2.has_pre():
                sc.m(sc.m(node2.obj, "get_verifier"), "process_precommitment", sc.get(tr, "precommitment"))
            d = sc.r(sc.m(sc.m(node2.obj, "prehash_statement"), "digest"))
            ck.same("%s: it carries the hash of the statement" % name, point_norm(sc, h), point_norm(sc, d), loc)
            sc2 = ck.scn()
            sc2.I.force = 0
            w2 = World(sc2)
            rt = real(sc2, SKELETONS[name][0](Side(w2, True)), "real transcript", sc2.num("c"))
            what = "%s: it has the shape of a real transcript" % name
            sa, sb = ([(p, x if isinstance(x, str) else None) for p, x in y.leaves + y.coms] for y in (sim, rt))
            if sa == sb:
                ck.ok(what)
            else:
                d = next(((x, y) for x, y in zip(sa, sb) if x != y), (len(sa), len(sb)))
                if any(isinstance(x, T) and t.has_unknown(x) for _, x in sim.leaves + sim.coms + rt.leaves + rt.coms):
                    ck.dunno(what, short(d))
                else:
                    ck.bad(what, "%s in the simulated, %s in the real one" % (d[0], d[1]), loc)


@rule("C18", "the consistency check of simulations decides the verification equation")
def decides(ck):
    for name in names(ck, pick=lambda n: not n.startswith("tree")):
        with ck.part(name):
            sc = ck.scn()
            w = World(sc)
            node = SKELETONS[name][0](Side(w, False))
            resp, com, pre = node.respond(), node.commitment(), node.pre()
            c, sh = sc.num("c"), sym("sent_hash")
            tr = sc.new("SimulationTranscript", commitment=com, challenge=c, responses=resp, precommitment=pre, stmt_hash=sh)
            acc = point_norm(sc, sc.accept(sc.m(node.obj, "verify_simulation_consistency", tr)))
            loc = ck.at("ComposableProofStmt.verify_simulation_consistency")
            with sc.fork():
                sc.I.st.pc = TRUE
                o = SKELETONS[name][0](Side(w_like(w), False))
                if o.has_pre():
                    sc.m(sc.m(o.obj, "get_verifier"), "process_precommitment", pre)
                d = point_norm(sc, sc.r(sc.m(sc.m(o.obj, "prehash_statement"), "digest")))
            ck.implied("%s: consistency implies the identity" % name, acc, eq(sh, d), loc)
            cond = AND(*[eq(a, b) for a, b in zip(flat_points(sc.r(com)), node.recomputed(c))])
            ck.implied("%s: consistency implies the verification equation" % name, acc, point_norm(sc, cond), loc)
            for label, k in node.consistency() + node.or_conditions(c):
                ck.implied("%s: consistency implies %s" % (name, label), acc, point_norm(sc, k), loc)
