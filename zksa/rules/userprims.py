"""
Primitives as a user of the library writes them (docs/new_primitives.rst): source text which is analysed together
with the library, and their specification as nodes of skeletons.
"""

import copy as _copy
import hashlib

from .common import *
from .skeletons import *
from .skeletons import skel
from ..program import Cls, Module

SOURCE = '''
from zksk import Secret, DLRep
from zksk.base import Prover, Verifier
from zksk.composition import ComposableProofStmt, AndProofStmt, OrProofStmt
from zksk.extended import ExtendedProofStmt
from zksk.base import SimulationTranscript
from zksk.exceptions import ValidationError
from zksk.utils import get_random_num
from zksk.consts import CHALLENGE_LENGTH


class Elgamal(ExtendedProofStmt):
    def __init__(self, ctxt, g, h, msg, randomizer):
        self.ctxt, self.g, self.h = ctxt, g, h
        self.msg, self.randomizer = msg, randomizer

    def construct_stmt(self, precommitment):
        part1 = DLRep(self.ctxt[0], self.randomizer * self.g)
        part2 = DLRep(self.ctxt[1], self.randomizer * self.h + self.msg * self.g)
        return part1 & part2


class Plain(ExtendedProofStmt):
    def __init__(self, lhs, g, x, simulated=False):
        self.lhs, self.g, self.x = lhs, g, x
        self.set_simulated(simulated)

    def construct_stmt(self, precommitment):
        return DLRep(self.lhs, self.x * self.g)


class Committed(ExtendedProofStmt):
    def __init__(self, lhs, g, h, x):
        self.lhs, self.g, self.h, self.x = lhs, g, h, x
        self.init_internal_secrets()

    def init_internal_secrets(self):
        self.r = Secret()

    def precommit(self):
        self.r.value = self.g.group.order().random()
        return {"com": self.x.value * self.g + self.r.value * self.h}

    def simulate_precommit(self):
        return {"com": self.g.group.order().random() * self.g}

    def construct_stmt(self, precommitment):
        return AndProofStmt(DLRep(self.lhs, self.x * self.g), DLRep(precommitment["com"], self.x * self.g + self.r * self.h))

    def validate(self, precommitment):
        if precommitment["com"] == self.g.group.infinite():
            raise ValidationError("neutral")


class Unsimulatable(ExtendedProofStmt):
    def __init__(self, lhs, g, x):
        self.lhs, self.g, self.x = lhs, g, x

    def precommit(self):
        return self.g.group.order().random() * self.g

    def construct_stmt(self, precommitment):
        return DLRep(self.lhs, self.x * self.g)


class Either(ExtendedProofStmt):
    def __init__(self, lhs1, g1, x1, lhs2, g2, x2):
        self.parts = (lhs1, g1, x1), (lhs2, g2, x2)

    def construct_stmt(self, precommitment):
        (l1, g1, x1), (l2, g2, x2) = self.parts
        return DLRep(l1, x1 * g1) | DLRep(l2, x2 * g2)


class SchnorrProver(Prover):
    def __init__(self, stmt):
        super().__init__(stmt, {})

    def internal_commit(self, randomizers_dict=None):
        randomizers = self.stmt.update_randomizers(randomizers_dict)
        self.k = randomizers[self.stmt.secret_vars[0]]
        return self.k * self.stmt.bases[0]

    def compute_response(self, challenge):
        order = self.stmt.bases[0].group.order()
        return [(self.k + challenge * self.stmt.secret_vars[0].value) % order]


class SchnorrVerifier(Verifier):
    def check_responses_consistency(self, response, response_dict=None):
        if response_dict is None:
            response_dict = {}
        x = self.stmt.secret_vars[0]
        if x in response_dict:
            return response_dict[x] == response[0]
        response_dict[x] = response[0]
        return True


class Schnorr(ComposableProofStmt):
    prover_cls = SchnorrProver
    verifier_cls = SchnorrVerifier

    def __init__(self, lhs, base, x):
        self.lhs = lhs
        self.bases = [base]
        self.secret_vars = [x]

    def get_proof_id(self, secret_id_map=None):
        return [super().get_proof_id(secret_id_map), self.lhs]

    def get_randomizers(self):
        return {self.secret_vars[0]: self.bases[0].group.order().random()}

    def recompute_commitment(self, challenge, response):
        return response[0] * self.bases[0] + (-challenge) * self.lhs

    def simulate_proof(self, responses_dict=None, challenge=None):
        responses = self.update_randomizers(responses_dict)
        if challenge is None:
            challenge = get_random_num(bits=CHALLENGE_LENGTH)
        response = [responses[self.secret_vars[0]]]
        return SimulationTranscript(
            commitment=self.recompute_commitment(challenge, response), challenge=challenge, responses=response)


class NoSecrets(ComposableProofStmt):
    prover_cls = SchnorrProver
    verifier_cls = SchnorrVerifier

    def __init__(self, bases=None):
        if bases is not None:
            self.bases = bases


class NoBases(ComposableProofStmt):
    prover_cls = SchnorrProver
    verifier_cls = SchnorrVerifier

    def __init__(self, secret_vars):
        self.secret_vars = secret_vars


class NoClasses(ComposableProofStmt):
    def __init__(self, lhs, base, x):
        self.lhs = lhs
        self.bases = [base]
        self.secret_vars = [x]


class Peggy:
    def precommit(self):
        return self.pre

    def commit(self):
        return self.com

    def compute_response(self, challenge):
        return self.resp


class Victor:
    def process_precommitment(self, precommitment):
        pass

    def send_challenge(self, commitment):
        return 1

    def verify(self, response):
        return self.said
'''


class _Text(Module):
    def __init__(self, name, source):
        self.name, self.path, self.rel, self.source = name, "<user>", "<user primitive>", source
        self.tree = ast.parse(source)
        self.names = {}
        self.digest = hashlib.sha256(source.encode()).hexdigest()


_user = {}


def user_program():
    """The library together with the primitives above."""
    if "p" not in _user:
        lib = program()
        p = _copy.copy(lib)
        p.modules, p.classes, p.functions = dict(lib.modules), dict(lib.classes), dict(lib.functions)
        m = _Text("user_primitives", SOURCE)
        p.modules[m.name] = m
        p._index(m, m.tree.body)
        for c in p.classes.values():
            if c.module is m:
                for b in c.node.bases:
                    r = p.resolve_expr(b, m)
                    c.bases.append(r[1] if r and r[0] == "cls" else ast.unparse(b))
        _user["p"] = p
    return _user["p"]


def use(sc):
    sc.prog = sc.I.prog = user_program()


def elgamal(s, m, r, known=None):
    """Knowledge of an ElGamal plaintext: no precommitment of its own."""
    use(s.sc)
    w = s.w
    g, h = s.p("g"), s.p("h")
    c1 = mul(w.v(r), g) if known is not False else s.p("c1" + m)
    c2 = add(mul(w.v(r), h), mul(w.v(m), g)) if known is not False else s.p("c2" + m)
    o = s.sc.new("Elgamal", raw("lit", c1, c2), g, h, s.s(m, known), s.s(r, known))
    inner = Node(w, "and", None, subs=[s.dl_spec(c1, (r, g)), s.dl_spec(c2, (r, h), (m, g))])
    return Node(w, "ext", o, subs=[inner], pre=s.sc.list(), cls="ExtendedProofStmt")


def plain(s, x, base="g", known=None, simulated=False):
    use(s.sc)
    w, g = s.w, s.p(base)
    y = mul(w.v(x), g) if known is not False else s.p("y" + x)
    o = s.sc.new("Plain", y, g, s.s(x, known), *([C(True)] if simulated else []))
    return Node(w, "ext", o, subs=[s.dl_spec(y, (x, g))], pre=s.sc.list(), cls="ExtendedProofStmt")


def committed(s, x, known=None):
    use(s.sc)
    w, g, h = s.w, s.p("g"), s.p("h")
    y = mul(w.v(x), g) if known is not False else s.p("y" + x)
    o = s.sc.new("Committed", y, g, h, s.s(x, known))
    k = w.fresh("cm")
    com = w.p("C" + k)
    pre = s.sc.dict()
    s.sc.I.setitem(pre, C("com"), com, None)
    inner = Node(w, "and", None, subs=[s.dl_spec(y, (x, g)), s.dl_spec(com, (x, g), (k, h))])
    node = Node(w, "ext", o, subs=[inner], pre=pre, cls="ExtendedProofStmt",
                checks=[("the precommitment of the user's primitive is not neutral", NOT(eq(com, INF)))])
    node.draws = 1
    return node


def either(s, x, z, unknown=0):
    use(s.sc)
    w, g, h = s.w, s.p("g"), s.p("h")
    y1 = s.p("y1" + x) if unknown == 1 else mul(w.v(x), g)
    y2 = s.p("y2" + z) if unknown == 2 else mul(w.v(z), h)
    o = s.sc.new("Either", y1, g, s.s(x, False if unknown == 1 else None), y2, h, s.s(z, False if unknown == 2 else None))
    inner = Node(w, "or", None, subs=[s.dl_spec(y1, (x, g)), s.dl_spec(y2, (z, h))])
    return Node(w, "ext", o, subs=[inner], pre=s.sc.list(), cls="ExtendedProofStmt")


def schnorr(s, x, base="g"):
    use(s.sc)
    w, g = s.w, s.p(base)
    y = mul(w.v(x), g)
    return Node(w, "dl", s.sc.new("Schnorr", y, g, s.s(x)), lhs=y, terms=[(x, g)], cls="ComposableProofStmt")


@skel("user: elgamal(m, r)", user=True)
def _(s):
    return elgamal(s, "m", "r")


@skel("user: elgamal(m, r) & m*k", user=True)
def _(s):
    return s.all(elgamal(s, "m", "r"), s.dl(("m", "k")))


@skel("user: x*k & elgamal(x, r) & elgamal(m, r)", user=True)
def _(s):
    return s.all(s.dl(("x", "k")), elgamal(s, "x", "r"), elgamal(s, "m", "r"))


@skel("user: elgamal(m, r) | z*k", user=True, choices=2)
def _(s):
    return s.any(elgamal(s, "m", "r"), s.dl(("z", "k")))


@skel("user: ?u*k | plain(x)", user=True, choices=2)
def _(s):
    return s.any(s.dlu("y", ("u", "k")), plain(s, "x"))


@skel("user: plain(?x) simulated | plain(z)", user=True, choices=2)
def _(s):
    return s.any(plain(s, "x", known=False, simulated=True), plain(s, "z"))


@skel("user: committed(x) & x*k", user=True)
def _(s):
    return s.all(committed(s, "x"), s.dl(("x", "k")))


@skel("user: committed(x) | committed(z) | w*k", user=True, choices=3)
def _(s):
    return s.any(committed(s, "x"), committed(s, "z"), s.dl(("w", "k")))


@skel("user: w*k & (committed(x) & plain(x)) & neq", user=True)
def _(s):
    return s.all(s.dl(("w", "k")), s.all(committed(s, "x"), plain(s, "x")), s.neq("v", "g", "h", "Y", True))


@skel("user: either(x, z)", user=True, choices=2)
def _(s):
    return either(s, "x", "z")


@skel("user: either(?x, z) & w*k", user=True, choices=2)
def _(s):
    return s.all(either(s, "x", "z", 1), s.dl(("w", "k")))


@skel("user: schnorr(x)", user=True)
def _(s):
    return schnorr(s, "x")


@skel("user: schnorr(x) & x*h & (schnorr(z) & z*h)", user=True)
def _(s):
    return s.all(schnorr(s, "x"), s.dl(("x", "h")), s.all(schnorr(s, "z"), s.dl(("z", "h"))))


@skel("user: z*h | schnorr(x)", user=True, choices=2)
def _(s):
    return s.any(s.dl(("z", "h")), schnorr(s, "x"))


@skel("user: operators: plain(x) & committed(x) & w*k", user=True)
def _(s):
    return s.conj(s.conj(plain(s, "x"), committed(s, "x")), s.dl(("w", "k")))


@skel("user: operators: plain(x) | (committed(z) | w*k)", user=True, choices=3)
def _(s):
    return s.disj(plain(s, "x"), s.disj(committed(s, "z"), s.dl(("w", "k"))))


@rule("C02", "the protocol runner reports what the verifier says")
def runner(ck):
    loc = ck.at("SigmaProtocol.verify")
    for verbose in (C(True), C(False), None):
        for label, resp in (("list", lambda sc: sc.list(sc.num("z0"), sc.num("z1"))), ("empty list", lambda sc: sc.list()), ("none", lambda sc: NONE),
                            ("anything", lambda sc: sym("response"))):
            sc = ck.scn()
            use(sc)
            ok = sc.num("verdict")
            said = eq(ok, ONE)
            peggy, victor = sc.new("Peggy"), sc.new("Victor")
            for n, v in (("pre", sym("pre")), ("com", sym("com")), ("resp", resp(sc))):
                sc.set(peggy, n, v)
            sc.set(victor, "said", said)
            r = sc.m(sc.new("SigmaProtocol", victor, peggy), "verify", **({} if verbose is None else {"verbose": verbose}))
            acc = sc.accept(r)
            what = "response %s%s: success" % (label, "" if verbose is None else ", verbose" if verbose == C(True) else ", not verbose")
            ck.implied(what + " implies that the verifier said so", acc, said, where=loc)
            ck.implied(what + " if the verifier says so", said, acc, where=loc)
