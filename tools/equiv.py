"""Larger edits which keep the behaviour: (name, edits), on all of which every check has to stay quiet."""

from mutants import COMP, BASE, EXT, DL, NEQ, RNG, BBS, PAIR, EXPR, GRP, MISC

EQUIV = []


def eq(name, *edits):
    EQUIV.append((name, list(edits)))


# ------------------------------------------------------------------ composition.py

eq("eqv-comp-1",
   (COMP, "def:_find_residual_challenge", '''
def _find_residual_challenge(subchallenges, challenge, modulus):
    space = Bn(2).pow(modulus)
    total = sum_bn_array(subchallenges, space)
    return challenge.mod_sub(total, space)
'''),
   (COMP, "def:_assign_secret_ids", '''
def _assign_secret_ids(secret_vars):
    ids = {}
    for secret in secret_vars:
        ids.setdefault(secret.name, len(ids))
    return ids
'''),
   (COMP, "def:ComposableProofStmt.get_proof_id", '''
def get_proof_id(self, secret_id_map=None):
    secret_vars, bases = self.get_secret_vars(), self.get_bases()
    ids = _assign_secret_ids(secret_vars) if secret_id_map is None else secret_id_map
    return [type(self).__name__, bases, list(map(lambda s: ids[s.name], secret_vars))]
'''),
   (COMP, "def:ComposableProofStmt.get_secret_vars", '''
def get_secret_vars(self):
    try:
        return self.secret_vars
    except AttributeError:
        raise StatementSpecError("Need to override get_secret_vars or specify secret_vars attribute.")
'''),
   (COMP, "def:ComposableProofStmt.__and__", '''
def __and__(self, other):
    parts = []
    for stmt in (self, other):
        if isinstance(stmt, AndProofStmt):
            parts.extend(stmt.subproofs)
        else:
            parts.append(stmt)
    return AndProofStmt(*parts)
'''),
   (COMP, "def:ComposableProofStmt.__or__", '''
def __or__(self, other):
    mine = self.subproofs if isinstance(self, OrProofStmt) else [self]
    theirs = other.subproofs if isinstance(other, OrProofStmt) else [other]
    return OrProofStmt(*mine, *theirs)
'''),
   (COMP, "def:ComposableProofStmt.update_randomizers", '''
def update_randomizers(self, randomizers_dict):
    if randomizers_dict is None:
        return self.get_randomizers()
    if all(x in randomizers_dict for x in self.get_secret_vars()):
        return randomizers_dict
    return {**self.get_randomizers(), **randomizers_dict}
'''),
   (COMP, "def:ComposableProofStmt.prove", '''
def prove(self, secret_dict=None, message=""):
    return self.get_prover({} if secret_dict is None else secret_dict).get_nizk_proof(message)
'''),
   (COMP, "def:ComposableProofStmt.verify", '''
def verify(self, nizk, message=""):
    return self.get_verifier().verify_nizk(nizk, message=message)
'''),
   (COMP, "def:ComposableProofStmt.check_statement", '''
def check_statement(self, statement_hash):
    h = self.prehash_statement()
    if h.digest() == statement_hash:
        return h
    raise StatementMismatch("Proof statements mismatch, impossible to verify")
'''),
   (COMP, "def:_CommonComposedStmtMixin.get_secret_vars", '''
def get_secret_vars(self):
    return [s for sub in self.subproofs for s in sub.get_secret_vars()]
'''),
   (COMP, "def:_CommonComposedStmtMixin.get_bases", '''
def get_bases(self):
    import itertools
    return list(itertools.chain.from_iterable(sub.get_bases() for sub in self.subproofs))
'''),
   (COMP, "def:_CommonComposedStmtMixin.validate_group_orders", '''
def validate_group_orders(self):
    orders = {}
    for secret, base in zip(self.get_secret_vars(), self.get_bases()):
        order = base.group.order()
        if orders.setdefault(secret, order) != order:
            raise GroupMismatchError(
                "A shared secret has bases which yield different group orders: %s" % secret.name
            )
'''),
   (COMP, "def:OrProofStmt.recompute_commitment", '''
def recompute_commitment(self, challenge, responses):
    self.or_challenges, responses = responses
    if len(self.or_challenges) != len(self.subproofs):
        raise InconsistentChallengeError("Unexpected number of subchallenges.")
    challenge_space = Bn(2).pow(CHALLENGE_LENGTH)
    if not all(0 <= c < challenge_space for c in self.or_challenges):
        raise InconsistentChallengeError("Subchallenge out of range.")
    if _find_residual_challenge(self.or_challenges, challenge, CHALLENGE_LENGTH) != 0:
        raise InconsistentChallengeError("Inconsistent challenges.")
    return [
        subproof.recompute_commitment(self.or_challenges[i], responses[i])
        for i, subproof in enumerate(self.subproofs)
    ]
'''),
   (COMP, "def:OrProofStmt.validate_secrets_reoccurence", '''
def validate_secrets_reoccurence(self, forbidden_secrets=None):
    for sub in self.subproofs:
        sub.validate_secrets_reoccurence()
    if forbidden_secrets is not None:
        secret_vars = self.get_secret_vars()
        if any(forbidden_secrets.count(s) > secret_vars.count(s) for s in secret_vars):
            raise InvalidSecretsError(
                "Invalid secrets found. Try to flatten the proof to avoid "
                "using secrets used inside an or-proof in other parts of "
                "the proof too (e.g., in other and or or-clauses)"
            )
'''))

eq("eqv-comp-2",
   (COMP, "def:OrProofStmt.get_prover", '''
def get_prover(self, secrets_dict=None):
    secrets_dict = secrets_dict or {}
    update_secret_values(secrets_dict)
    if self.simulated:
        return None

    possible = [i for i, p in enumerate(self.subproofs) if not p.simulated]
    if not possible:
        print("Cannot run an or-proof if all elements are simulated")
        return None

    random_gen = random.SystemRandom()
    while possible:
        self.chosen_idx = random_gen.choice(possible)
        prover = self._try_get_subprover(secrets_dict)
        if prover is not None:
            return OrProver(self, prover)
        possible.remove(self.chosen_idx)
    self.chosen_idx = None
    return None
'''),
   (COMP, "def:OrProofStmt.simulate_proof", '''
def simulate_proof(self, challenge=None, *args, **kwargs):
    if challenge is None:
        challenge = get_random_num(CHALLENGE_LENGTH)
    *firsts, last = self.subproofs
    transcripts = [p.simulate_proof() for p in firsts]
    final_chal = _find_residual_challenge(
        [t.challenge for t in transcripts], challenge, CHALLENGE_LENGTH
    )
    transcripts.append(last.simulate_proof(challenge=final_chal))
    precom = [t.precommitment for t in transcripts]
    return SimulationTranscript(
        commitment=[t.commitment for t in transcripts],
        challenge=challenge,
        responses=([t.challenge for t in transcripts], [t.responses for t in transcripts]),
        precommitment=precom if any(p is not None for p in precom) else None,
    )
'''),
   (COMP, "class:OrProver", '''
class OrProver(Prover):
    """Prover for the or-proof."""

    def __init__(self, stmt, subprover):
        self.subprover = subprover
        self.stmt = stmt
        self.true_prover_idx = self.stmt.chosen_idx
        self.setup_simulations()

    def setup_simulations(self):
        self.simulations = []
        for subproof in self._others():
            subproof.prepare_simulate_proof()
            self.simulations.append(subproof.simulate_proof())

    def _others(self):
        return [p for i, p in enumerate(self.stmt.subproofs) if i != self.true_prover_idx]

    def _gather(self, true_value, attribute):
        values = [getattr(sim, attribute) for sim in self.simulations]
        values.insert(self.true_prover_idx, true_value)
        return values

    def precommit(self):
        precommitment = self._gather(self.subprover.precommit(), "precommitment")
        return None if all(p is None for p in precommitment) else precommitment

    def internal_commit(self, randomizers_dict=None):
        self.stmt.validate_composition()
        return self._gather(self.subprover.internal_commit(), "commitment")

    def compute_response(self, challenge):
        used = [sim.challenge for sim in self.simulations]
        mine = _find_residual_challenge(used, challenge, CHALLENGE_LENGTH)
        return (
            self._gather(mine, "challenge"),
            self._gather(self.subprover.compute_response(mine), "responses"),
        )
'''),
   (COMP, "def:OrVerifier.process_precommitment", '''
def process_precommitment(self, precommitment):
    if precommitment is not None:
        for i in range(len(self.subs)):
            self.subs[i].process_precommitment(precommitment[i])
'''),
   (COMP, "def:OrVerifier.check_responses_consistency", '''
def check_responses_consistency(self, responses, responses_dict=None):
    _, by_clause = responses
    return all(
        sub.check_responses_consistency(by_clause[i], {}) for i, sub in enumerate(self.subs)
    )
'''),
   (COMP, "def:AndProofStmt.recompute_commitment", '''
def recompute_commitment(self, challenge, responses):
    return [
        subproof.recompute_commitment(challenge, responses[i])
        for i, subproof in enumerate(self.subproofs)
    ]
'''),
   (COMP, "def:AndProofStmt.get_prover", '''
def get_prover(self, secrets_dict=None):
    values = {} if secrets_dict is None else secrets_dict
    update_secret_values(values)
    if not self.simulated:
        subs = []
        for sub_proof in self.subproofs:
            subs.append(sub_proof.get_prover(values))
        if any(s is None for s in subs):
            raise ValueError("Failed to construct prover for a conjunct")
        return AndProver(self, subs)
    return None
'''),
   (COMP, "def:AndProofStmt.get_randomizers", '''
def get_randomizers(self):
    bases = dict(zip(self.get_secret_vars(), self.get_bases()))
    return {secret: base.group.order().random() for secret, base in bases.items()}
'''),
   (COMP, "def:AndProofStmt.simulate_proof", '''
def simulate_proof(self, responses_dict=None, challenge=None):
    responses_dict = self.update_randomizers(responses_dict)
    if challenge is None:
        challenge = get_random_num(CHALLENGE_LENGTH)
    sims = [
        sub.simulate_proof(challenge=challenge, responses_dict=responses_dict)
        for sub in self.subproofs
    ]
    com, resp, precom = map(
        list, zip(*((s.commitment, s.responses, s.precommitment) for s in sims))
    )
    if not [p for p in precom if p is not None]:
        precom = None
    return SimulationTranscript(com, challenge, resp, precom)
'''),
   (COMP, "def:AndProver.precommit", '''
def precommit(self):
    precommitment = [sub.precommit() for sub in self.subs]
    if all(p is None for p in precommitment):
        return None
    return precommitment
'''),
   (COMP, "def:AndProver.internal_commit", '''
def internal_commit(self, randomizers_dict=None):
    self.stmt.validate_composition()
    shared = self.stmt.update_randomizers(randomizers_dict)
    self.commitment = [sub.internal_commit(randomizers_dict=shared) for sub in self.subs]
    return self.commitment
'''),
   (COMP, "def:AndVerifier.check_responses_consistency", '''
def check_responses_consistency(self, responses, responses_dict=None):
    responses_dict = {} if responses_dict is None else responses_dict
    pending = list(enumerate(self.subs))
    while pending:
        index, sub = pending.pop(0)
        if not sub.check_responses_consistency(responses[index], responses_dict):
            return False
    return True
'''))

eq("eqv-comp-mixin",
   (COMP, "class:_CommonComposedStmtMixin", '''
def _collect(stmts, getter):
    """Concatenate what the given method returns for each of the statements."""
    out = []
    for stmt in stmts:
        out += getattr(stmt, getter)()
    return out


class _CommonComposedStmtMixin:
    def __copy__(self):
        cls = type(self)
        stmt = cls.__new__(cls)
        for name, value in vars(self).items():
            setattr(stmt, name, value)
        stmt._copy_subproofs(self.subproofs)
        return stmt

    def _copy_subproofs(self, subproofs):
        if len(subproofs) < 2:
            raise ValueError("Need at least two subproofs")
        self.subproofs = list(map(copy.copy, subproofs))

    def get_secret_vars(self):
        return _collect(self.subproofs, "get_secret_vars")

    def get_bases(self):
        return _collect(self.subproofs, "get_bases")

    def validate_group_orders(self):
        bases = self.get_bases()
        positions = defaultdict(list)
        for index, secret in enumerate(self.get_secret_vars()):
            positions[secret].append(index)
        for secret, indices in positions.items():
            first, *others = [bases[i].group.order() for i in indices]
            if any(o != first for o in others):
                raise GroupMismatchError(
                    f"A shared secret has bases which yield different group orders: {secret.name}"
                )

    def get_proof_id(self, secret_id_map=None):
        if secret_id_map is None:
            secret_id_map = _assign_secret_ids(self.get_secret_vars())
        proof_ids = []
        for sub in self.subproofs:
            proof_ids.append(sub.get_proof_id(secret_id_map))
        return (self.__class__.__name__, proof_ids)

    def validate_composition(self, *args, **kwargs):
        """Validate that composition is done correctly."""
        self.validate_group_orders()
        self.validate_secrets_reoccurence()

    def full_validate(self, *args, **kwargs):
        self.validate_composition()
        for sub in self.subproofs:
            sub.full_validate(*args, **kwargs)

    def prepare_simulate_proof(self):
        for sub in self.subproofs:
            sub.prepare_simulate_proof()
'''),
   (COMP, "def:OrProofStmt.__init__", '''
def __init__(self, *subproofs):
    self._copy_subproofs(subproofs)
'''),
   (COMP, "def:AndProofStmt.__init__", '''
def __init__(self, *subproofs):
    self._copy_subproofs(subproofs)
'''),
   (COMP, "def:OrProofStmt.validate_composition", ""),
   (COMP, "def:AndProofStmt.validate_composition", ""),
   (COMP, "def:OrProofStmt.prepare_simulate_proof", ""),
   (COMP, "def:AndProofStmt.prepare_simulate_proof", ""),
   (COMP, "def:OrProofStmt._try_get_subprover", '''
def _try_get_subprover(self, secrets_dict):
    prover = None
    try:
        prover = self.subproofs[self.chosen_idx].get_prover(secrets_dict)
    except ValueError:
        pass
    return prover
'''),
   (COMP, "def:OrProver.precommit", '''
def precommit(self):
    sims = iter(self.simulations)
    precommitment = [
        self.subprover.precommit() if index == self.true_prover_idx else next(sims).precommitment
        for index in range(len(self.stmt.subproofs))
    ]
    if any(p is not None for p in precommitment):
        return precommitment
'''),
   (COMP, "def:OrProver.internal_commit", '''
def internal_commit(self, randomizers_dict=None):
    self.stmt.validate_composition()
    own = self.subprover.internal_commit()
    k = self.true_prover_idx
    before = [s.commitment for s in self.simulations[:k]]
    after = [s.commitment for s in self.simulations[k:]]
    return before + [own] + after
'''),
   (COMP, "def:OrProver.compute_response", '''
def compute_response(self, challenge):
    simulated = self.simulations
    residual = _find_residual_challenge(
        list(map(lambda t: t.challenge, simulated)), challenge, CHALLENGE_LENGTH
    )
    own = self.subprover.compute_response(residual)
    challenges, response = [], []
    shift = 0
    for index in range(len(self.stmt.subproofs)):
        if index == self.true_prover_idx:
            shift = 1
            c, r = residual, own
        else:
            tr = simulated[index - shift]
            c, r = tr.challenge, tr.responses
        challenges.append(c)
        response.append(r)
    return challenges, response
'''),
   (COMP, "class:OrVerifier", '''
class _ComposedVerifier(Verifier):
    """What the verifiers of both compositions share."""

    def __init__(self, stmt, subverifiers):
        self.subs = subverifiers
        self.stmt = stmt

    def process_precommitment(self, precommitment):
        """Distribute the list of precommitments to the subverifiers."""
        if precommitment is None:
            return
        for index, sub in enumerate(self.subs):
            sub.process_precommitment(precommitment[index])


class OrVerifier(_ComposedVerifier):
    """Verifier for the or-proof."""

    def check_responses_consistency(self, responses, responses_dict=None):
        for index, sub in enumerate(self.subs):
            consistent = sub.check_responses_consistency(responses[1][index], {})
            if not consistent:
                break
        else:
            return True
        return False
'''),
   (COMP, "class:AndVerifier", '''
class AndVerifier(_ComposedVerifier):
    """Verifier for the and-proof."""

    def send_challenge(self, commitment, ignore_statement_hash_checks=False):
        if not ignore_statement_hash_checks:
            statement, commitment = commitment
            self.stmt.check_statement(statement)
        self.commitment = commitment
        self.challenge = get_random_num(bits=CHALLENGE_LENGTH)
        return self.challenge

    def check_responses_consistency(self, responses, responses_dict=None):
        if responses_dict is None:
            responses_dict = dict()
        results = (
            sub.check_responses_consistency(responses[i], responses_dict)
            for i, sub in enumerate(self.subs)
        )
        return all(results)
'''))

# ------------------------------------------------------------------ base.py, extended.py

eq("eqv-base-1",
   (BASE, "class:NIZK", '''
@attr.s
class NIZK:
    """
    Non-interactive zero-knowledge proof.
    """

    challenge = attr.ib()
    responses = attr.ib()
    precommitment = attr.ib(default=None)
    stmt_hash = attr.ib(default=None)

    FIELDS = ("challenge", "responses", "precommitment", "stmt_hash")

    def serialize(self):
        """
        Serialize a non-interactive zero-knowledge proof.
        """
        return msgpack.packb(
            [encode(getattr(self, name)) for name in self.FIELDS], use_bin_type=True
        )

    @classmethod
    def deserialize(cls, nizk_raw):
        """
        Deserialize a non-interactive zero-knowledge proof.
        """
        return cls(**{name: decode(raw) for name, raw in zip(cls.FIELDS, msgpack.unpackb(nizk_raw))})
'''),
   (BASE, "def:build_fiat_shamir_challenge", '''
def build_fiat_shamir_challenge(stmt_prehash, *args, message=""):
    def as_bytes(elem):
        if isinstance(elem, (bytes, str)):
            return elem
        return encode(elem)

    for elem in args:
        stmt_prehash.update(as_bytes(elem))
    stmt_prehash.update(message.encode("utf-8"))
    return Bn.from_hex(stmt_prehash.hexdigest())
'''),
   (BASE, "def:Prover.commit", '''
def commit(self, randomizers_dict=None):
    digest = self.stmt.prehash_statement().digest()
    commitment = self.internal_commit(randomizers_dict)
    return digest, commitment
'''),
   (BASE, "def:Prover.get_nizk_proof", '''
def get_nizk_proof(self, message=""):
    precommitment = self.precommit()
    stmt_hash, commitment = self.commit()
    prehash = self.stmt.prehash_statement()
    challenge = build_fiat_shamir_challenge(prehash, precommitment, commitment, message=message)
    return NIZK(challenge, self.compute_response(challenge), precommitment, stmt_hash)
'''),
   (BASE, "def:Verifier.send_challenge", '''
def send_challenge(self, commitment):
    statement, self.commitment = commitment[0], commitment[1]
    self.stmt.check_statement(statement)
    challenge = self.challenge = get_random_num(CHALLENGE_LENGTH)
    return challenge
'''),
   (BASE, "def:Verifier.pre_verification_validation", '''
def pre_verification_validation(self, response, *args, **kwargs):
    self.stmt.full_validate(*args, **kwargs)
    consistent = self.check_responses_consistency(response, {})
    if consistent:
        return
    raise ValidationError("Responses for the same secret name do not match.")
'''),
   (BASE, "def:Verifier.verify", '''
def verify(self, response, *args, **kwargs):
    self.pre_verification_validation(response, *args, **kwargs)
    expected = self.stmt.recompute_commitment(self.challenge, response)
    return expected == self.commitment
'''),
   (BASE, "def:Verifier.verify_nizk", '''
def verify_nizk(self, nizk, message="", *args, **kwargs):
    challenge, responses, precommitment = nizk.challenge, nizk.responses, nizk.precommitment
    if precommitment is not None:
        self.process_precommitment(precommitment)
    prehash = self.stmt.check_statement(nizk.stmt_hash)
    self.pre_verification_validation(responses, *args, **kwargs)
    recomputed = self.stmt.recompute_commitment(challenge, responses)
    return self._same_challenge(challenge, prehash, precommitment, recomputed, message)

@staticmethod
def _same_challenge(challenge, prehash, *parts):
    *hashed, message = parts
    return challenge == build_fiat_shamir_challenge(prehash, *hashed, message=message)
'''),
   (EXT, "def:ExtendedProofStmt.__copy__", '''
def __copy__(self):
    stmt = object.__new__(type(self))
    stmt.__dict__ = dict(self.__dict__)
    stmt.init_internal_secrets()
    return stmt
'''),
   (EXT, "def:ExtendedProofStmt.constructed_stmt", '''
@property
def constructed_stmt(self):
    return getattr(self, "_constructed_stmt", None)
'''),
   (EXT, "def:ExtendedProofStmt.precommitment", '''
@property
def precommitment(self):
    return self.__dict__.get("_precommitment")
'''),
   (EXT, "def:ExtendedProofStmt.get_prover", '''
def get_prover(self, secrets_dict=None):
    values = {} if secrets_dict is None else secrets_dict
    for secret in values:
        secret.value = values[secret]
    self.secret_values = dict(values)
    return None if self.simulated else ExtendedProver(self, self.secret_values)
'''),
   (EXT, "def:ExtendedProofStmt.get_proof_id", '''
def get_proof_id(self, secret_id_map=None):
    inner = self.constructed_stmt
    if inner is None:
        raise ValueError("Proof ID unknown before the proof is constructed.")
    return [self.__class__.__name__, self.precommitment, inner.get_proof_id(secret_id_map)]
'''),
   (EXT, "def:ExtendedProofStmt.full_construct_stmt", '''
def full_construct_stmt(self, precommitment):
    self._precommitment = precommitment
    stmt = self.construct_stmt(precommitment)
    self._constructed_stmt = stmt
    return stmt
'''),
   (EXT, "def:ExtendedProofStmt.prepare_simulate_proof", '''
def prepare_simulate_proof(self):
    self.full_construct_stmt(self.simulate_precommit())
'''),
   (EXT, "def:ExtendedProofStmt.simulate_proof", '''
def simulate_proof(self, responses_dict=None, challenge=None):
    tr = self.constructed_stmt.simulate_proof(
        responses_dict=responses_dict, challenge=challenge
    )
    tr.precommitment = self.precommitment
    return tr
'''),
   (EXT, "def:ExtendedProver.precommit", '''
def precommit(self):
    self.precommitment = self.stmt._precommit()
    self.process_precommitment()
    for p in getattr(self.constructed_prover, "subs", ()):
        p.precommit()
    return self.precommitment
'''),
   (EXT, "def:ExtendedProver.compute_response", '''
def compute_response(self, challenge):
    self.challenge = self.constructed_prover.challenge = challenge
    self.response = response = self.constructed_prover.compute_response(challenge)
    return response
'''),
   (EXT, "def:ExtendedProver.internal_commit", '''
def internal_commit(self, randomizers_dict=None):
    if self.stmt.constructed_stmt is not None:
        return self.constructed_prover.internal_commit(randomizers_dict)
    raise StatementSpecError(
        "You need to pre-commit before commiting. The proofs lack parameters otherwise."
    )
'''),
   (EXT, "def:ExtendedVerifier.process_precommitment", '''
def process_precommitment(self, precommitment):
    self.precommitment = precommitment
    inner = self.stmt.full_construct_stmt(precommitment)
    self.constructed_verifier = inner.get_verifier()
'''))

# ------------------------------------------------------------------ dlrep, expr, groups

eq("eqv-dlrep-1",
   (DL, "def:DLRepVerifier.check_responses_consistency", '''
def check_responses_consistency(self, responses, responses_dict=None):
    seen = {} if responses_dict is None else responses_dict
    for i, s in enumerate(self.stmt.secret_vars):
        if seen.setdefault(s, responses[i]) != responses[i]:
            return False
    return True
'''),
   (DL, "def:DLRep.__init__", '''
def __init__(self, lhs, expr, simulated=False):
    if not isinstance(expr, Expression):
        raise TypeError(f"Expected an Expression. Got: {type(expr).__name__}")
    self.bases, self.secret_vars = list(expr.bases), list(expr.secrets)
    self._check_groups()
    self.secret_values = {s: s.value for s in self.secret_vars if s.value is not None}
    self.lhs = lhs
    self.set_simulated(simulated)

def _check_groups(self):
    expected = self.bases[0].group
    for group in (g.group for g in self.bases):
        if group != expected:
            raise InvalidExpression("All bases should come from the same group", group)
'''),
   (DL, "def:DLRep.get_prover", '''
def get_prover(self, secrets_dict=None):
    if secrets_dict is not None:
        self.secret_values.update(secrets_dict)
    values = self.secret_values
    if self.simulated or not values or not set(self.secret_vars) <= set(values):
        return None
    for name in list(values):
        if not isinstance(values[name], Bn):
            values[name] = Bn(values[name])
    return DLRepProver(self, values)
'''),
   (DL, "def:DLRep.get_proof_id", '''
def get_proof_id(self, secret_id_map=None):
    return [*super().get_proof_id(secret_id_map), self.lhs]
'''),
   (DL, "def:DLRep.get_randomizers", '''
def get_randomizers(self):
    order = self.bases[0].group.order()
    return {sec: order.random() for sec in self.secret_vars}
'''),
   (DL, "def:DLRep.recompute_commitment", '''
def recompute_commitment(self, challenge, responses):
    right = self.lhs.group.wsum(responses, self.bases)
    return right - challenge * self.lhs
'''),
   (DL, "def:DLRep.simulate_proof", '''
def simulate_proof(self, responses_dict=None, challenge=None):
    challenge = get_random_num(CHALLENGE_LENGTH) if challenge is None else challenge
    values = self.update_randomizers(responses_dict)
    responses = list(map(values.__getitem__, self.secret_vars))
    return SimulationTranscript(
        self.recompute_commitment(challenge, responses), challenge, responses
    )
'''),
   (DL, "def:DLRepProver.internal_commit", '''
def internal_commit(self, randomizers_dict=None):
    values = self.stmt.update_randomizers(randomizers_dict)
    bases = self.stmt.bases
    self.ks = [values[sec] for sec in self.stmt.secret_vars]
    return bases[0].group.wsum(self.ks, bases)
'''),
   (DL, "def:DLRepProver.compute_response", '''
def compute_response(self, challenge):
    order = self.stmt.bases[0].group.order()
    return [
        (k + challenge * self.secret_values[sec]) % order
        for k, sec in zip(self.ks, self.stmt.secret_vars)
    ]
'''),
   (EXPR, "def:Expression.__add__", '''
def __add__(self, other):
    if isinstance(other, Expression):
        result = Expression(self._secrets[0], self._bases[0])
        result._secrets = [*self._secrets, *other._secrets]
        result._bases = [*self._bases, *other._bases]
        return result
    raise InvalidExpression(
        "Invalid expression. Only linear combinations of group elements are supported."
    )
'''),
   (EXPR, "def:Expression.eval", '''
def eval(self):
    """Evaluate the expression, if all secret values are available."""
    import functools
    import operator

    missing = [s for s in self._secrets if s.value is None]
    if missing:
        raise IncompleteValuesError("Secret {0} does not have a value".format(missing[0].name))
    terms = [s.value * b for s, b in zip(self._secrets, self._bases)]
    return functools.reduce(operator.add, terms)
'''),
   (EXPR, "def:Secret.__eq__", '''
def __eq__(self, other):
    if hash(self) != hash(other):
        return False
    return self.value == other.value
'''),
   (EXPR, "def:wsum_secrets", '''
def wsum_secrets(secrets, bases):
    if len(secrets) != len(bases):
        raise ValueError("Should have as many secrets as bases.")
    first, *rest = [s * b for s, b in zip(secrets, bases)]
    total = first
    for term in rest:
        total = total + term
    return total
'''),
   (EXPR, "def:update_secret_values", '''
def update_secret_values(secrets_dict):
    for secret in secrets_dict.keys():
        secret.value = secrets_dict[secret]
'''),
   (GRP, "def:get_random_point", '''
def get_random_point(group=None, random_bits=256, seed=None):
    """
    Generate some random group generators.
    """
    group = DEFAULT_GROUP if group is None else group
    return group.hash_to_point(_point_seed(-(-random_bits // 8), seed))


def _point_seed(num_bytes, seed):
    if seed is None:
        return secrets.token_bytes(num_bytes)
    return hashlib.sha512(str(seed).encode()).digest()[:num_bytes]
'''),
   (GRP, "def:make_generators", '''
def make_generators(num, group=None, random_bits=256, seed=42):
    """
    Create some random group generators.
    """
    if group is None:
        group = DEFAULT_GROUP
    generators = []
    for i in range(num):
        this_seed = None if seed is None else seed + i
        generators.append(get_random_point(group, random_bits, seed=this_seed))
    return generators
'''),
   (GRP, "def:sum_bn_array", '''
def sum_bn_array(arr, modulus):
    """
    Sum an array of big numbers under a modulus.
    """
    modulus = ensure_bn(modulus)
    res = Bn(0)
    for elem in map(ensure_bn, arr):
        res = res.mod_add(elem, modulus)
    return res
'''),
   (GRP, "def:ensure_bn", '''
def ensure_bn(x):
    """
    Ensure that value is big number.
    """
    return x if isinstance(x, Bn) else Bn(x)
'''),
   (MISC, "def:get_default_attr", '''
def get_default_attr(obj, attr, default_value=None):
    """
    Get attribute by name. If does not exist, set it.
    """
    try:
        return getattr(obj, attr)
    except AttributeError:
        setattr(obj, attr, default_value)
        return default_value
'''))

# ------------------------------------------------------------------ primitives

eq("eqv-prims-1",
   (NEQ, "def:DLNotEqual.precommit", '''
def precommit(self):
    order = self.g.group.order()
    blinder = order.random()
    x = self.x.value
    self.alpha.value = (x * blinder) % order
    self.beta.value = (order - blinder) % order
    return blinder * (x * self.h) - blinder * self.lhs[1]
'''),
   (NEQ, "def:DLNotEqual.construct_stmt", '''
def construct_stmt(self, precommitment):
    statements = [
        self._blinded(self.g.group.infinite(), self.g, self.lhs[0]),
        self._blinded(precommitment, self.h, self.lhs[1]),
    ]
    if self.bind:
        statements += [DLRep(self.lhs[0], self.x * self.g)]
    return AndProofStmt(*statements)

def _blinded(self, lhs, base, image):
    return DLRep(lhs, wsum_secrets([self.alpha, self.beta], [base, image]))
'''),
   (NEQ, "def:DLNotEqual.get_prover", '''
def get_prover(self, secrets_dict=None):
    prover = super().get_prover(secrets_dict)
    if self.x.value is None:
        prover = None
    return prover
'''),
   (NEQ, "def:DLNotEqual.simulate_precommit", '''
def simulate_precommit(self):
    g = self.g.group.generator()
    return self.g.group.order().random() * g
'''),
   (RNG, "def:decompose_into_n_bits", '''
def decompose_into_n_bits(value, n):
    """Array of bits, least significant bit first"""
    if value < 0:
        raise Exception("Can't represent negative values")
    if value.num_bits() > n:
        raise Exception("Not enough bits to represent value")
    return [int(value.is_bit_set(b)) for b in range(n)]
'''),
   (RNG, "def:PowerTwoRangeStmt.precommit", '''
def precommit(self):
    bits = decompose_into_n_bits(ensure_bn(self.x.value), self.num_bits)
    for r in self.randomizers:
        r.value = self.order.random()
    values = [r.value for r in self.randomizers]
    Cs = [b * self.g + r * self.h for b, r in zip(bits, values)]
    return {"Cs": Cs, "rand": (self._weighted(values) - self.randomizer.value) % self.order}

def _weighted(self, values):
    """Sum of the values, the i-th one weighted by 2^i."""
    total = Bn(0)
    for i, v in enumerate(values):
        total = (total + v * Bn(2).pow(i)) % self.order
    return total
'''),
   (RNG, "def:PowerTwoRangeStmt.simulate_precommit", '''
def simulate_precommit(self):
    values = [self.order.random() for _ in self.randomizers]
    first, *others = [r * self.h for r in values]
    return {"Cs": [first + self.com] + others, "rand": self._weighted(values)}
'''),
   (RNG, "def:PowerTwoRangeStmt.validate", '''
def validate(self, precommitment):
    commitments, rand = precommitment["Cs"], precommitment["rand"]
    if len(commitments) != self.num_bits:
        raise ValidationError("Unexpected number of bit commitments")
    combined = self.g.group.infinite()
    for c in reversed(commitments):
        combined = 2 * combined + c
    if combined != self.com + rand * self.h:
        raise ValidationError("The commitments do not combine correctly")
'''),
   (RNG, "def:PowerTwoRangeStmt.construct_stmt", '''
def construct_stmt(self, precommitment):
    bits = self._known_bits()
    bit_proofs = []
    for i, randomizer in enumerate(self.randomizers):
        c = precommitment["Cs"][i]
        zero = DLRep(c, randomizer * self.h)
        one = DLRep(c - self.g, randomizer * self.h)
        if bits is not None:
            zero.set_simulated(bits[i] == 1)
            one.set_simulated(bits[i] == 0)
        bit_proofs.append(OrProofStmt(zero, one))
    if len(bit_proofs) == 1:
        return bit_proofs[0]
    return AndProofStmt(*bit_proofs)

def _known_bits(self):
    if not self.is_prover:
        return None
    value = ensure_bn(self.x.value)
    if value < 0 or value.num_bits() > self.num_bits:
        return None
    return decompose_into_n_bits(value, self.num_bits)
'''),
   (RNG, "from zksk.composition import AndProofStmt", "from zksk.composition import AndProofStmt, OrProofStmt"),
   (RNG, "def:GenericRangeStmtMaker.__call__", '''
def __call__(self, com, g, h, a, b, x, r):
    a, b = ensure_bn(a), ensure_bn(b)
    if x.value is not None and not (a <= x.value < b):
        warnings.warn("Secret outside of given range [{}, {})".format(a, b))
    return _range_conjunction(com, g, h, a, b, x, r)
'''),
   (RNG, "def:GenericRangeOnlyStmtMaker.__call__", '''
def __call__(self, a, b, x=None):
    group = EcGroup()
    g, h = (group.hash_to_point(label) for label in (b"g", b"h"))
    r = Secret(value=group.order().random())
    com = (x * g + r * h).eval()
    return _range_conjunction(com, g, h, ensure_bn(a), ensure_bn(b), x, r)
'''),
   (RNG, "class GenericRangeStmtMaker:", '''def _range_conjunction(com, g, h, a, b, x, r):
    """The two power-of-two statements which tell that a <= x < b, along with the opening of the commitment."""
    width = b - a
    num_bits = max(1, (width - 1).num_bits())
    offset = Bn(2).pow(num_bits) - width
    parts = [DLRep(com, x * g + r * h)]
    for shift in (a, a - offset):
        value = Secret()
        if x is not None and x.value is not None:
            value.value = x.value - shift
        parts.append(
            PowerTwoRangeStmt(com - shift * g, g, h, num_bits, x=value, randomizer=r)
        )
    return AndProofStmt(*parts)


class GenericRangeStmtMaker:'''),
   (BBS, "def:BBSPlusSignature.verify_signature", '''
def verify_signature(self, pk, messages):
    """
    Verify the validity of the signature w.r.t the given public key and set of messages.
    """
    g0, *others = pk.generators[: len(messages) + 2]
    signed = g0
    for exponent, g in zip([self.s] + list(messages), others):
        signed = signed + exponent * g
    return self.A.pair(self.e * pk.h0 + pk.w) == signed.pair(pk.h0)
'''),
   (BBS, "def:BBSPlusSignatureCreator.commit", '''
def commit(self, messages, zkp=True):
    """
    Construct the product of messages and optionaly a Pedersen commitment and its proof.
    """
    generators = self.pk.generators
    group = generators[0].group
    used = generators[2 : 2 + len(messages)]
    if not zkp:
        self.s1 = None
        return UserCommitmentMessage(group.wsum(messages, used))
    self.s1 = group.order().random()
    values = [self.s1, *messages]
    bases = [generators[1], *used]
    lhs = group.wsum(values, bases)
    names = [Secret() for _ in values]
    proof = DLRep(lhs, wsum_secrets(names, bases)).prove(dict(zip(names, values)))
    return UserCommitmentMessage(com_message=lhs, com_nizk_proof=proof)
'''),
   (BBS, "def:BBSPlusSignatureCreator.obtain_signature", '''
def obtain_signature(self, presignature):
    """
    Make a complete signature from the received pre-signature.
    """
    s = presignature.s
    if self.s1 is not None:
        s = s + self.s1
    return attr.evolve(presignature, s=s)
'''),
   (BBS, "def:BBSPlusSecretKey.sign", '''
def sign(self, lhs):
    order = self.h0.group.order()
    e, s2 = order.random(), order.random()
    g0, g1 = self.generators[:2]
    inverse = (self.gamma + e).mod_inverse(order)
    return BBSPlusSignature(A=inverse * (lhs + g0 + s2 * g1), e=e, s=s2)
'''),
   (BBS, "def:BBSPlusSignatureStmt.precommit", '''
def precommit(self):
    if self.signature is None:
        raise ValueError("No signature given!")
    A, e = self.signature.A, self.signature.e
    g1, g2 = self.bases[1:3]
    for r, delta in ((self.r1, self.delta1), (self.r2, self.delta2)):
        r.value = self.order.random()
        delta.value = r.value * e % self.order
    return {
        "A1": self.r1.value * g1 + self.r2.value * g2,
        "A2": A + self.r1.value * g2,
    }
'''),
   (BBS, "def:BBSPlusSignatureStmt.construct_stmt", '''
def construct_stmt(self, precommitment):
    self.A1, self.A2 = precommitment["A1"], precommitment["A2"]
    g0, g1, g2 = self.bases[:3]
    e, *others = self.secret_vars
    pk = self.pk

    opening = DLRep(self.A1, self.r1 * g1 + self.r2 * g2)
    product = DLRep(
        g0.group.infinite(), self.delta1 * g1 + self.delta2 * g2 + e * (-1 * self.A1)
    )
    self.pair_lhs = self.A2.pair(pk.w) - pk.gen_pairs[0]
    weights = [e, self.r1, self.delta1, *others]
    bases = [-1 * self.A2.pair(pk.h0), g2.pair(pk.w), pk.gen_pairs[2]]
    bases += pk.gen_pairs[1 : len(self.bases)]
    pairings_stmt = DLRep(self.pair_lhs, wsum_secrets(weights, bases))

    stmt = AndProofStmt(opening, product, pairings_stmt)
    stmt.lhs = [opening.lhs, product.lhs, pairings_stmt.lhs]
    return stmt
'''),
   (BBS, "def:BBSPlusSignatureStmt.simulate_precommit", '''
def simulate_precommit(self):
    group = self.bases[0].group
    return {
        name: group.order().random() * group.generator() for name in ("A1", "A2")
    }
'''),
   (BBS, "def:BBSPlusSignatureStmt.get_prover", '''
def get_prover(self, secrets_dict=None):
    prover = super().get_prover(secrets_dict)
    complete = all(s.value is not None for s in self.secret_vars)
    return prover if self.signature is not None and complete else None
'''))

# ------------------------------------------------------------------ pairings

eq("eqv-pair-1",
   (PAIR, "class:GTGroup", '''
class _Group:
    """What the wrappers of the three groups share."""

    def __init__(self, bp):
        self.bp = bp
        self.gen = None
        self.inf = None

    def order(self):
        return self.bp.bpgp.order()

    def __eq__(self, other):
        return self.__class__ == other.__class__ and self.bp.bpgp == other.bp.bpgp

    def _make_generator(self):
        raise NotImplementedError()

    def _make_infinite(self):
        raise NotImplementedError()

    def generator(self):
        if self.gen is None:
            self.gen = self._make_generator()
        return self.gen

    def infinite(self):
        if self.inf is None:
            self.inf = self._make_infinite()
        return self.inf

    def sum(self, points):
        res = self.infinite()
        for p in points:
            res = res + p
        return res

    def wsum(self, weights, generators):
        if len(weights) != len(generators):
            raise ValueError("Should have as many weights as generators.")
        return self.sum([w * g for w, g in zip(weights, generators)])


class _Point:
    """What the wrappers of the points share."""

    group_name = None

    def __init__(self, pt, bp):
        self.pt = pt
        self.bp = bp
        self.group = getattr(bp, self.group_name)

    def _wrap(self, pt):
        return type(self)(pt, self.bp)

    def export(self, form=0):
        if form:
            return self.pt.export(form)
        return self.pt.export()

    def __eq__(self, other):
        return self.pt == other.pt

    def __add__(self, other):
        return self._wrap(self.pt + other.pt)

    def __sub__(self, other):
        return self + (-1 * other)

    def __mul__(self, nb):
        return self._wrap(self.pt * nb)

    def __rmul__(self, nb):
        return self * nb


class GTGroup(_Group):
    """Wrapper for the GT group with additive points."""

    def _make_infinite(self):
        return AdditivePoint(self.generator().pt.one(self.bp.bpgp), self.bp)

    def _make_generator(self):
        return self.bp.G1.generator().pair(self.bp.G2.generator())
'''),
   (PAIR, "class:AdditivePoint", '''
class AdditivePoint(_Point):
    """A wrapper for GT points that uses additive notation."""

    group_name = "GT"

    def __mul__(self, nb):
        if nb == 0:
            return self._wrap(self.pt.one(self.bp.bpgp))
        return self._wrap(self.pt ** nb)

    def __add__(self, other):
        return self._wrap(self.pt * other.pt)

    def __repr__(self):
        return "GTPt({})".format(self.pt.export().hex())
'''),
   (PAIR, "class:G1Point", '''
class G1Point(_Point):
    """Wrapper for G1 points so they can be paired with a G2 point."""

    group_name = "G1"

    def pair(self, other):
        return AdditivePoint(self.bp.bpgp.pair(self.pt, other.pt), self.bp)

    def __repr__(self):
        return "G1Pt({})".format(self.pt.export().hex())
'''),
   (PAIR, "class:G2Point", '''
class G2Point(_Point):
    """Wrapper for G2 points."""

    group_name = "G2"

    def __repr__(self):
        return "G2Pt({})".format(self.pt.export().hex())
'''),
   (PAIR, "class:G1Group", '''
class G1Group(_Group):
    """Wrapper for G1 that behaves like normal ``petlib.ec.EcGroup``."""

    def _make_generator(self):
        return G1Point(self.bp.bpgp.gen1(), self.bp)

    def _make_infinite(self):
        return G1Point(self.generator().pt.inf(self.bp.bpgp), self.bp)

    def hash_to_point(self, string):
        return G1Point(self.bp.bpgp.hashG1(string), self.bp)
'''),
   (PAIR, "class:G2Group", '''
class G2Group(_Group):
    """Wrapper for the G2 group."""

    def _make_generator(self):
        return G2Point(self.bp.bpgp.gen2(), self.bp)

    def _make_infinite(self):
        return G2Point(self.generator().pt.inf(self.bp.bpgp), self.bp)
'''),
   (PAIR, "def:pt_enc", '''
def pt_enc(obj):
    """Encoder for the wrapped points."""
    return msgpack.packb((obj.bp.bpgp.nid, obj.pt.export()))
'''),
   (PAIR, "def:pt_dec", '''
def pt_dec(bptype, xtype):
    """Decoder for the wrapped points."""

    def dec(data):
        _, raw = msgpack.unpackb(data)
        bp = BilinearGroupPair()
        return xtype(bptype.from_bytes(raw, bp.bpgp), bp)

    return dec
'''))

# ------------------------------------------------------------------ second batch: other styles

eq("eqv-comp-3",
   (COMP, "def:_find_residual_challenge", '''
def _find_residual_challenge(subchallenges, challenge, modulus):
    space = Bn(1)
    for _ in range(modulus):
        space = space * 2
    residual = challenge
    for subchallenge in subchallenges:
        residual = residual.mod_sub(subchallenge, space)
    return residual % space
'''),
   (COMP, "def:_assign_secret_ids", '''
def _assign_secret_ids(secret_vars):
    names = list(dict.fromkeys(secret.name for secret in secret_vars))
    return {name: index for index, name in enumerate(names)}
'''),
   (COMP, "def:ComposableProofStmt.__and__", '''
def __and__(self, other):
    return AndProofStmt(*_flatten(AndProofStmt, self), *_flatten(AndProofStmt, other))
'''),
   (COMP, "def:ComposableProofStmt.__or__", '''
def __or__(self, other):
    return OrProofStmt(*_flatten(OrProofStmt, self), *_flatten(OrProofStmt, other))
'''),
   (COMP, "def:ComposableProofStmt.update_randomizers", '''
def update_randomizers(self, randomizers_dict):
    if randomizers_dict is None:
        return self.get_randomizers()
    missing = [x for x in self.get_secret_vars() if x not in randomizers_dict]
    if not missing:
        return randomizers_dict
    merged = dict(self.get_randomizers())
    for secret, value in randomizers_dict.items():
        merged[secret] = value
    return merged
'''),
   (COMP, "def:_CommonComposedStmtMixin.validate_group_orders", '''
def validate_group_orders(self):
    bases = self.get_bases()
    secrets = self.get_secret_vars()
    first_seen = {}
    for index, secret in enumerate(secrets):
        if secret not in first_seen:
            first_seen[secret] = index
            continue
        if bases[index].group.order() != bases[first_seen[secret]].group.order():
            raise GroupMismatchError(
                "A shared secret has bases which yield different group orders: {}".format(secret.name)
            )
'''),
   (COMP, "def:OrProofStmt.recompute_commitment", '''
def recompute_commitment(self, challenge, responses):
    or_challenges, subresponses = responses[0], responses[1]
    self.or_challenges = or_challenges
    self._check_subchallenges(or_challenges, challenge)
    com = []
    index = 0
    while index < len(self.subproofs):
        com.append(self.subproofs[index].recompute_commitment(or_challenges[index], subresponses[index]))
        index += 1
    return com

def _check_subchallenges(self, or_challenges, challenge):
    if len(or_challenges) != len(self.subproofs):
        raise InconsistentChallengeError("Unexpected number of subchallenges.")
    challenge_space = Bn(2).pow(CHALLENGE_LENGTH)
    outside = [c for c in or_challenges if c < 0 or c >= challenge_space]
    if len(outside) > 0:
        raise InconsistentChallengeError("Subchallenge out of range.")
    if _find_residual_challenge(or_challenges, challenge, CHALLENGE_LENGTH) != Bn(0):
        raise InconsistentChallengeError("Inconsistent challenges.")
'''),
   (COMP, "def:OrProofStmt.get_prover", '''
def get_prover(self, secrets_dict=None):
    secrets_dict = {} if secrets_dict is None else secrets_dict
    update_secret_values(secrets_dict)
    if self.simulated:
        return None

    possible = [i for i, sub in enumerate(self.subproofs) if not sub.simulated]
    if not possible:
        print("Cannot run an or-proof if all elements are simulated")
        return None

    random_gen = random.SystemRandom()
    while possible:
        self.chosen_idx = random_gen.choice(possible)
        valid_prover = self._try_get_subprover(secrets_dict)
        if valid_prover is not None:
            return OrProver(self, valid_prover)
        possible.remove(self.chosen_idx)

    self.chosen_idx = None
    return None
'''),
   (COMP, "def:OrProofStmt.simulate_proof", '''
def simulate_proof(self, challenge=None, *args, **kwargs):
    if challenge is None:
        challenge = get_random_num(bits=CHALLENGE_LENGTH)
    *firsts, last = self.subproofs
    transcripts = [sub.simulate_proof() for sub in firsts]
    final_chal = _find_residual_challenge(
        [t.challenge for t in transcripts], challenge, CHALLENGE_LENGTH
    )
    transcripts.append(last.simulate_proof(challenge=final_chal))
    return _gather(
        challenge,
        transcripts,
        ([t.challenge for t in transcripts[:-1]] + [final_chal], [t.responses for t in transcripts]),
    )
'''),
   (COMP, "def:AndProofStmt.simulate_proof", '''
def simulate_proof(self, responses_dict=None, challenge=None):
    responses_dict = self.update_randomizers(responses_dict)
    if challenge is None:
        challenge = get_random_num(CHALLENGE_LENGTH)
    transcripts = [
        sub.simulate_proof(challenge=challenge, responses_dict=responses_dict)
        for sub in self.subproofs
    ]
    return _gather(challenge, transcripts, [t.responses for t in transcripts])
'''),
   (COMP, "append:", '''

def _flatten(composed_cls, stmt):
    return stmt.subproofs if isinstance(stmt, composed_cls) else [stmt]


def _gather(challenge, transcripts, responses):
    precommitments = [t.precommitment for t in transcripts]
    has_precommitment = any(p is not None for p in precommitments)
    return SimulationTranscript(
        commitment=[t.commitment for t in transcripts],
        challenge=challenge,
        responses=responses,
        precommitment=precommitments if has_precommitment else None,
    )
'''))

eq("eqv-prover-3",
   (COMP, "def:OrProver.setup_simulations", '''
def setup_simulations(self):
    self.simulations = [
        self._simulate(subproof)
        for index, subproof in enumerate(self.stmt.subproofs)
        if index != self.true_prover_idx
    ]

@staticmethod
def _simulate(subproof):
    subproof.prepare_simulate_proof()
    return subproof.simulate_proof()

def _simulation_at(self, index):
    """The simulation of the clause at that index, which is not the chosen one."""
    return self.simulations[index - 1 if index > self.true_prover_idx else index]
'''),
   (COMP, "def:OrProver.precommit", '''
def precommit(self):
    precommitment = []
    for index in range(len(self.stmt.subproofs)):
        if index == self.true_prover_idx:
            part = self.subprover.precommit()
        else:
            part = self._simulation_at(index).precommitment
        precommitment.append(part)
    return precommitment if any(p is not None for p in precommitment) else None
'''),
   (COMP, "def:OrProver.internal_commit", '''
def internal_commit(self, randomizers_dict=None):
    self.stmt.validate_composition()
    commitment = [sim.commitment for sim in self.simulations]
    commitment.insert(self.true_prover_idx, self.subprover.internal_commit())
    return commitment
'''),
   (COMP, "def:OrProver.compute_response", '''
def compute_response(self, challenge):
    challenges = [sim.challenge for sim in self.simulations]
    responses = [sim.responses for sim in self.simulations]
    residual = _find_residual_challenge(challenges, challenge, CHALLENGE_LENGTH)
    responses.insert(self.true_prover_idx, self.subprover.compute_response(residual))
    challenges.insert(self.true_prover_idx, residual)
    return challenges, responses
'''),
   (COMP, "def:OrVerifier.process_precommitment", '''
def process_precommitment(self, precommitment):
    if precommitment is not None:
        for i in range(len(self.subs)):
            self.subs[i].process_precommitment(precommitment[i])
'''),
   (COMP, "def:OrVerifier.check_responses_consistency", '''
def check_responses_consistency(self, responses, responses_dict=None):
    _, subresponses = responses
    return all(
        sub.check_responses_consistency(subresponses[i], {}) for i, sub in enumerate(self.subs)
    )
'''),
   (COMP, "def:AndProver.precommit", '''
def precommit(self):
    precommitments = [sub.precommit() for sub in self.subs]
    if all(p is None for p in precommitments):
        return None
    return precommitments
'''),
   (COMP, "def:AndProver.internal_commit", '''
def internal_commit(self, randomizers_dict=None):
    self.stmt.validate_composition()
    randomizers_dict = self.stmt.update_randomizers(randomizers_dict)
    self.commitment = [s.internal_commit(randomizers_dict) for s in self.subs]
    return self.commitment
'''),
   (COMP, "def:AndProver.compute_response", '''
def compute_response(self, challenge):
    responses = []
    for sub in self.subs:
        responses.append(sub.compute_response(challenge))
    return responses
'''),
   (COMP, "def:AndVerifier.check_responses_consistency", '''
def check_responses_consistency(self, responses, responses_dict=None):
    responses_dict = {} if responses_dict is None else responses_dict
    consistent = True
    for index, sub in enumerate(self.subs):
        if consistent:
            consistent = sub.check_responses_consistency(responses[index], responses_dict)
    return consistent
'''),
   (COMP, "def:AndVerifier.process_precommitment", '''
def process_precommitment(self, precommitment):
    if precommitment is None:
        return
    index = 0
    for sub in self.subs:
        sub.process_precommitment(precommitment[index])
        index += 1
'''),
   (COMP, "def:AndVerifier.send_challenge", '''
def send_challenge(self, commitment, ignore_statement_hash_checks=False):
    if not ignore_statement_hash_checks:
        statement, commitment = commitment
        self.stmt.check_statement(statement)
    self.commitment = commitment
    self.challenge = get_random_num(CHALLENGE_LENGTH)
    return self.challenge
'''),
   (COMP, "def:AndProofStmt.get_prover", '''
def get_prover(self, secrets_dict=None):
    secrets_dict = secrets_dict or {}
    update_secret_values(secrets_dict)
    if self.simulated:
        return None
    subs = []
    for sub_proof in self.subproofs:
        subs.append(sub_proof.get_prover(secrets_dict))
    for prover in subs:
        if prover is None:
            raise ValueError("Failed to construct prover for a conjunct")
    return AndProver(self, subs)
'''),
   (COMP, "def:AndProofStmt.get_randomizers", '''
def get_randomizers(self):
    orders = {}
    for secret, base in zip(self.get_secret_vars(), self.get_bases()):
        orders[secret] = base.group.order()
    return {secret: order.random() for secret, order in orders.items()}
'''),
   (COMP, "def:AndProofStmt.recompute_commitment", '''
def recompute_commitment(self, challenge, responses):
    return [p.recompute_commitment(challenge, responses[i]) for i, p in enumerate(self.subproofs)]
'''),
   (COMP, "def:AndProofStmt.validate_secrets_reoccurence", '''
def validate_secrets_reoccurence(self, forbidden_secrets=None):
    forbidden = list(self.get_secret_vars()) if forbidden_secrets is None else forbidden_secrets
    for stmt in self.subproofs:
        stmt.validate_secrets_reoccurence(forbidden)
'''),
   (COMP, "def:OrProofStmt.validate_secrets_reoccurence", '''
def validate_secrets_reoccurence(self, forbidden_secrets=None):
    for sub in self.subproofs:
        sub.validate_secrets_reoccurence(None)
    if forbidden_secrets is None:
        return
    secret_vars = self.get_secret_vars()
    outside = [s for s in set(secret_vars) if forbidden_secrets.count(s) > secret_vars.count(s)]
    if outside:
        raise InvalidSecretsError(
            "Invalid secrets found. Try to flatten the proof to avoid "
            "using secrets used inside an or-proof in other parts of "
            "the proof too (e.g., in other and or or-clauses)"
        )
'''))

eq("eqv-base-3",
   (BASE, "def:NIZK.serialize", '''
def serialize(self):
    fields = attr.astuple(self, recurse=False)
    return msgpack.packb(list(map(encode, fields)), use_bin_type=True)
'''),
   (BASE, "def:NIZK.deserialize", '''
@classmethod
def deserialize(cls, nizk_raw):
    challenge, responses, precommitment, stmt_hash = map(decode, msgpack.unpackb(nizk_raw))
    return cls(
        challenge=challenge, responses=responses, precommitment=precommitment, stmt_hash=stmt_hash
    )
'''),
   (BASE, "def:build_fiat_shamir_challenge", '''
def build_fiat_shamir_challenge(stmt_prehash, *args, message=""):
    def as_bytes(elem):
        return elem if isinstance(elem, (bytes, str)) else encode(elem)

    for elem in args:
        stmt_prehash.update(as_bytes(elem))
    stmt_prehash.update(message.encode("utf-8"))
    return Bn.from_hex(stmt_prehash.hexdigest())
'''),
   (BASE, "def:Prover.commit", '''
def commit(self, randomizers_dict=None):
    stmt_hash = self.stmt.prehash_statement().digest()
    commitment = self.internal_commit(randomizers_dict)
    return stmt_hash, commitment
'''),
   (BASE, "def:Prover.get_nizk_proof", '''
def get_nizk_proof(self, message=""):
    precommitment = self.precommit()
    commitment = self.internal_commit()
    stmt_hash, challenge = self._fiat_shamir(precommitment, commitment, message)
    return NIZK(challenge, self.compute_response(challenge), precommitment, stmt_hash)

def _fiat_shamir(self, precommitment, commitment, message):
    prehash = self.stmt.prehash_statement()
    stmt_hash = prehash.digest()
    return stmt_hash, build_fiat_shamir_challenge(prehash, precommitment, commitment, message=message)
'''),
   (BASE, "def:Verifier.send_challenge", '''
def send_challenge(self, commitment):
    statement = commitment[0]
    self.stmt.check_statement(statement)
    self.commitment = commitment[1]
    challenge = get_random_num(bits=CHALLENGE_LENGTH)
    self.challenge = challenge
    return challenge
'''),
   (BASE, "def:Verifier.verify", '''
def verify(self, response, *args, **kwargs):
    self.pre_verification_validation(response, *args, **kwargs)
    recomputed = self.stmt.recompute_commitment(self.challenge, response)
    if recomputed == self.commitment:
        return True
    return False
'''),
   (BASE, "def:Verifier.pre_verification_validation", '''
def pre_verification_validation(self, response, *args, **kwargs):
    self.stmt.full_validate(*args, **kwargs)
    consistent = self.check_responses_consistency(response, dict())
    if consistent:
        return
    raise ValidationError("Responses for the same secret name do not match.")
'''),
   (BASE, "def:Verifier.verify_nizk", '''
def verify_nizk(self, nizk, message="", *args, **kwargs):
    challenge, responses, precommitment = nizk.challenge, nizk.responses, nizk.precommitment
    if precommitment is not None:
        self.process_precommitment(precommitment)
    prehash = self.stmt.check_statement(nizk.stmt_hash)
    self.pre_verification_validation(responses, *args, **kwargs)
    hashed = (precommitment, self.stmt.recompute_commitment(challenge, responses))
    return build_fiat_shamir_challenge(prehash, *hashed, message=message) == challenge
'''))

eq("eqv-ext-3",
   (EXT, "def:ExtendedProofStmt.get_prover", '''
def get_prover(self, secrets_dict=None):
    self.secret_values = dict(secrets_dict or {})
    for secret, value in self.secret_values.items():
        secret.value = value
    return None if self.simulated else ExtendedProver(self, self.secret_values)
'''),
   (EXT, "def:ExtendedProofStmt.get_proof_id", '''
def get_proof_id(self, secret_id_map=None):
    inner = self.constructed_stmt
    if inner is None:
        raise ValueError("Proof ID unknown before the proof is constructed.")
    return [type(self).__name__, self.precommitment, inner.get_proof_id(secret_id_map)]
'''),
   (EXT, "def:ExtendedProofStmt.full_construct_stmt", '''
def full_construct_stmt(self, precommitment):
    self._precommitment = precommitment
    inner = self.construct_stmt(precommitment)
    self._constructed_stmt = inner
    return inner
'''),
   (EXT, "def:ExtendedProofStmt.prepare_simulate_proof", '''
def prepare_simulate_proof(self):
    self.full_construct_stmt(self.simulate_precommit())
'''),
   (EXT, "def:ExtendedProofStmt.simulate_proof", '''
def simulate_proof(self, responses_dict=None, challenge=None):
    transcript = self.constructed_stmt.simulate_proof(
        responses_dict=responses_dict, challenge=challenge
    )
    transcript.precommitment = self.precommitment
    return transcript
'''),
   (EXT, "def:ExtendedProofStmt.full_validate", '''
def full_validate(self, *args, **kwargs):
    precommitment, inner = self.precommitment, self.constructed_stmt
    self.validate(precommitment, *args, **kwargs)
    inner.full_validate(*args, **kwargs)
'''),
   (EXT, "def:ExtendedProofStmt.simulate_precommit", '''
def simulate_precommit(self):
    if type(self).precommit is not ExtendedProofStmt.precommit:
        raise StatementSpecError(
            "Override simulate_precommit in order to use or-proofs and simulations"
        )
    return self.precommit()
'''),
   (EXT, "def:ExtendedProver.precommit", '''
def precommit(self):
    precommitment = self.stmt._precommit()
    self.precommitment = precommitment
    self.process_precommitment()
    for p in getattr(self.constructed_prover, "subs", ()):
        p.precommit()
    return precommitment
'''),
   (EXT, "def:ExtendedProver.process_precommitment", '''
def process_precommitment(self):
    inner = self.stmt.full_construct_stmt(self.precommitment)
    self.constructed_prover = inner.get_prover(self.secret_values)
'''),
   (EXT, "def:ExtendedProver.compute_response", '''
def compute_response(self, challenge):
    inner = self.constructed_prover
    inner.challenge = self.challenge = challenge
    self.response = response = inner.compute_response(challenge)
    return response
'''),
   (EXT, "def:ExtendedVerifier.process_precommitment", '''
def process_precommitment(self, precommitment):
    self.precommitment = precommitment
    self.constructed_verifier = self.stmt.full_construct_stmt(precommitment).get_verifier()
'''),
   (EXPR, "def:Expression.__add__", '''
def __add__(self, other):
    if isinstance(other, Expression):
        result = Expression(self._secrets[0], self._bases[0])
        result._secrets = [*self._secrets, *other._secrets]
        result._bases = [*self._bases, *other._bases]
        return result
    raise InvalidExpression(
        "Invalid expression. Only linear combinations of group elements are supported."
    )
'''),
   (EXPR, "def:Expression.eval", '''
def eval(self):
    terms = []
    for secret, base in zip(self._secrets, self._bases):
        if secret.value is None:
            raise IncompleteValuesError("Secret {0} does not have a value".format(secret.name))
        terms.append(secret.value * base)
    first, *rest = terms
    total = first
    for term in rest:
        total = total + term
    return total
'''),
   (EXPR, "def:Secret.__repr__", '''
def __repr__(self):
    parts = []
    if self.value is not None:
        parts.append(str(self.value))
        if self.name is not None:
            parts.append(repr(self.name))
    elif self.name is not None:
        parts.append("name=" + repr(self.name))
    return "Secret(%s)" % ", ".join(parts)
'''),
   (EXPR, "def:Secret.__eq__", '''
def __eq__(self, other):
    if hash(self) != hash(other):
        return False
    return self.value == other.value
'''),
   (EXPR, "def:wsum_secrets", '''
def wsum_secrets(secrets, bases):
    if len(secrets) != len(bases):
        raise ValueError("Should have as many secrets as bases.")
    terms = [s * b for s, b in zip(secrets, bases)]
    return functools.reduce(operator.add, terms[1:], terms[0])


import functools
import operator
'''),
   (EXPR, "def:update_secret_values", '''
def update_secret_values(secrets_dict):
    for secret in secrets_dict:
        setattr(secret, "value", secrets_dict[secret])
'''))

eq("eqv-dlrep-3",
   (DL, "def:DLRepVerifier.check_responses_consistency", '''
def check_responses_consistency(self, responses, responses_dict=None):
    seen = {} if responses_dict is None else responses_dict
    for index, secret in enumerate(self.stmt.secret_vars):
        response = responses[index]
        if seen.get(secret, response) != response:
            return False
        seen[secret] = response
    return True
'''),
   (DL, "def:DLRep.__init__", '''
def __init__(self, lhs, expr, simulated=False):
    if not isinstance(expr, Expression):
        raise TypeError("Expected an Expression. Got: {}".format(type(expr).__name__))
    self.bases = list(expr.bases)
    self.secret_vars = list(expr.secrets)
    self._check_same_group(self.bases)
    self.lhs = lhs
    self.secret_values = {s: s.value for s in self.secret_vars if s.value is not None}
    self.set_simulated(simulated)

@staticmethod
def _check_same_group(bases):
    group = bases[0].group
    for base in bases[1:]:
        if base.group != group:
            raise InvalidExpression("All bases should come from the same group", base.group)
'''),
   (DL, "def:DLRep.get_prover", '''
def get_prover(self, secrets_dict=None):
    if secrets_dict:
        self.secret_values.update(secrets_dict)
    values = self.secret_values
    complete = bool(values) and all(s in values for s in self.secret_vars)
    if self.simulated or not complete:
        return None
    for secret in values:
        values[secret] = self._as_bn(values[secret])
    return DLRepProver(self, values)

@staticmethod
def _as_bn(value):
    return value if isinstance(value, Bn) else Bn(value)
'''),
   (DL, "def:DLRep.get_proof_id", '''
def get_proof_id(self, secret_id_map=None):
    proof_id = super().get_proof_id(secret_id_map)
    proof_id.append(self.lhs)
    return proof_id
'''),
   (DL, "def:DLRep.get_randomizers", '''
def get_randomizers(self):
    order = self.bases[0].group.order()
    output = dict.fromkeys(self.secret_vars)
    for sec in output:
        output[sec] = order.random()
    return output
'''),
   (DL, "def:DLRep.recompute_commitment", '''
def recompute_commitment(self, challenge, responses):
    weighted = self.lhs.group.wsum(responses, self.bases)
    return weighted - challenge * self.lhs
'''),
   (DL, "def:DLRep.simulate_proof", '''
def simulate_proof(self, responses_dict=None, challenge=None):
    challenge = get_random_num(CHALLENGE_LENGTH) if challenge is None else challenge
    randomizers = self.update_randomizers(responses_dict)
    responses = list(map(randomizers.__getitem__, self.secret_vars))
    return SimulationTranscript(
        challenge=challenge,
        responses=responses,
        commitment=self.recompute_commitment(challenge, responses),
    )
'''),
   (DL, "def:DLRepProver.internal_commit", '''
def internal_commit(self, randomizers_dict=None):
    stmt = self.stmt
    randomizers = stmt.update_randomizers(randomizers_dict)
    self.ks = []
    result = stmt.bases[0].group.infinite()
    for secret, base in zip(stmt.secret_vars, stmt.bases):
        k = randomizers[secret]
        self.ks.append(k)
        result += k * base
    return result
'''),
   (DL, "def:DLRepProver.compute_response", '''
def compute_response(self, challenge):
    order = self.stmt.bases[0].group.order()
    values = [self.secret_values[s] for s in self.stmt.secret_vars]
    return [k.mod_add(challenge * x, order) for k, x in zip(self.ks, values)]
'''))

eq("eqv-dlrep-4",
   (DL, "def:DLRepProver.compute_response", '''
def compute_response(self, challenge):
    order = self.stmt.bases[0].group.order()

    def respond(secret, k):
        return (k + challenge * self.secret_values[secret]) % order

    return [respond(s, k) for s, k in zip(self.stmt.secret_vars, self.ks)]
'''),
   (DL, "def:DLRepProver.internal_commit", '''
def internal_commit(self, randomizers_dict=None):
    randomizers_dict = self.stmt.update_randomizers(randomizers_dict)
    self.ks = [randomizers_dict[sec] for sec in self.stmt.secret_vars]
    return self.stmt.bases[0].group.wsum(self.ks, self.stmt.bases)
'''),
   (DL, "def:DLRep.recompute_commitment", '''
def recompute_commitment(self, challenge, responses):
    group = self.lhs.group
    if len(responses) != len(self.bases):
        return group.wsum(responses, self.bases)
    total = -challenge * self.lhs
    for response, base in zip(responses, self.bases):
        total = total + response * base
    return total
'''),
   (DL, "def:DLRepVerifier.check_responses_consistency", '''
def check_responses_consistency(self, responses, responses_dict=None):
    if responses_dict is None:
        responses_dict = {}
    return all(
        responses_dict.setdefault(s, responses[i]) == responses[i]
        for i, s in enumerate(self.stmt.secret_vars)
    )
'''),
   (DL, "def:DLRep.get_prover", '''
def get_prover(self, secrets_dict=None):
    if secrets_dict is not None:
        for secret, value in secrets_dict.items():
            self.secret_values[secret] = value
    if self.simulated or not self.secret_values:
        return None
    try:
        for secret in self.secret_vars:
            self.secret_values[secret]
    except KeyError:
        return None
    for secret, value in list(self.secret_values.items()):
        if not isinstance(value, Bn):
            self.secret_values[secret] = Bn(value)
    return DLRepProver(self, self.secret_values)
'''))

eq("eqv-neq-3",
   (NEQ, "def:DLNotEqual.__init__", '''
def __init__(self, valid_pair, invalid_pair, x, bind=False, simulated=False):
    for pair in (valid_pair, invalid_pair):
        if len(pair) != 2:
            raise TypeError("The valid_pair and invalid_pair must be pairs")
    (lhs0, self.g), (lhs1, self.h) = valid_pair, invalid_pair
    self.lhs = [lhs0, lhs1]
    self.x, self.bind = x, bind
    self.init_internal_secrets()
    self.set_simulated(simulated)
'''),
   (NEQ, "def:DLNotEqual.get_prover", '''
def get_prover(self, secrets_dict=None):
    prover = super().get_prover(secrets_dict)
    if self.x.value is None:
        return None
    return prover
'''),
   (NEQ, "def:DLNotEqual.precommit", '''
def precommit(self):
    order = self.g.group.order()
    blinder = order.random()
    x = self.x.value
    self.beta.value = (-blinder) % order
    self.alpha.value = blinder * x % order
    return (blinder * x) * self.h - blinder * self.lhs[1]
'''),
   (NEQ, "def:DLNotEqual.construct_stmt", '''
def construct_stmt(self, precommitment):
    y0, y1 = self.lhs
    infty = self.g.group.infinite()
    stmt = DLRep(infty, self.alpha * self.g + self.beta * y0) & DLRep(
        precommitment, self.alpha * self.h + self.beta * y1
    )
    if self.bind:
        stmt = stmt & DLRep(y0, self.x * self.g)
    return stmt
'''),
   (NEQ, "def:DLNotEqual.validate", '''
def validate(self, precommitment):
    if self._is_unity(precommitment):
        raise ValidationError("The commitment should not be the unity element")

def _is_unity(self, point):
    return point == self.g.group.infinite()
'''),
   (NEQ, "def:DLNotEqual.simulate_precommit", '''
def simulate_precommit(self):
    order = self.g.group.order()
    return order.random() * self.g.group.generator()
'''),
   (RNG, "def:decompose_into_n_bits", '''
def decompose_into_n_bits(value, n):
    if value < 0:
        raise Exception("Can't represent negative values")
    if value.num_bits() > n:
        raise Exception("Not enough bits to represent value")
    return [int(value.is_bit_set(i)) for i in range(n)]
'''),
   (RNG, "def:PowerTwoRangeStmt.__init__", '''
def __init__(self, com, g, h, num_bits, x=None, randomizer=None):
    self.com = com
    self.g, self.h = g, h
    self.order = g.group.order()
    self.num_bits = num_bits
    self.is_prover = x.value is not None and randomizer.value is not None
    if self.is_prover:
        self.x, self.randomizer = x, randomizer
        value = self.x.value = ensure_bn(x.value)
        if value < 0:
            warnings.warn("Secret is negative")
        if value.num_bits() > num_bits:
            warnings.warn("Secret has more than {} bits".format(num_bits))
    self.init_internal_secrets()
'''),
   (RNG, "def:PowerTwoRangeStmt.precommit", '''
def precommit(self):
    bits = decompose_into_n_bits(ensure_bn(self.x.value), self.num_bits)
    commitments = []
    total = Bn(0)
    for i, (bit, secret) in enumerate(zip(bits, self.randomizers)):
        secret.value = self.order.random()
        commitments.append(bit * self.g + secret.value * self.h)
        total = total.mod_add(secret.value * Bn(2) ** i, self.order)
    return {"Cs": commitments, "rand": total.mod_sub(self.randomizer.value, self.order)}
'''),
   (RNG, "def:PowerTwoRangeStmt.construct_stmt", '''
def construct_stmt(self, precommitment):
    bits = self._known_bits()
    bit_proofs = [
        self._bit_proof(com, secret, None if bits is None else bits[i])
        for i, (com, secret) in enumerate(zip(precommitment["Cs"], self.randomizers))
    ]
    if len(bit_proofs) == 1:
        return bit_proofs[0]
    return AndProofStmt(*bit_proofs)

def _known_bits(self):
    if not self.is_prover:
        return None
    value = ensure_bn(self.x.value)
    if value < 0 or value.num_bits() > self.num_bits:
        return None
    return decompose_into_n_bits(value, self.num_bits)

def _bit_proof(self, com, secret, bit):
    p0 = DLRep(com, secret * self.h)
    p1 = DLRep(com - self.g, secret * self.h)
    if bit is not None:
        p0.set_simulated(bit == 1)
        p1.set_simulated(bit == 0)
    return p0 | p1
'''),
   (RNG, "def:PowerTwoRangeStmt.simulate_precommit", '''
def simulate_precommit(self):
    randomizers = []
    for _ in range(self.num_bits):
        randomizers.append(self.order.random())
    commitments = [r * self.h for r in randomizers]
    commitments[0] = commitments[0] + self.com
    rand = Bn(0)
    for i, r in enumerate(randomizers):
        rand = rand.mod_add(r * (Bn(2) ** i), self.order)
    return dict(Cs=commitments, rand=rand)
'''),
   (RNG, "def:PowerTwoRangeStmt.validate", '''
def validate(self, precommitment):
    commitments, rand = precommitment["Cs"], precommitment["rand"]
    if len(commitments) != self.num_bits:
        raise ValidationError("Unexpected number of bit commitments")
    combined = self.g.group.infinite()
    for c in reversed(commitments):
        combined = 2 * combined + c
    if combined == self.com + rand * self.h:
        return
    raise ValidationError("The commitments do not combine correctly")
'''),
   (RNG, "def:GenericRangeStmtMaker.__call__", '''
def __call__(self, com, g, h, a, b, x, r):
    a, b = ensure_bn(a), ensure_bn(b)
    x1, x2 = Secret(), Secret()
    num_bits, offset = _dimensions(a, b)
    if x.value is not None:
        if not a <= x.value < b:
            warnings.warn("Secret outside of given range [{}, {})".format(a, b))
        x1.value = x.value - a
        x2.value = x1.value + offset
    return _two_sided(com, g, h, a, num_bits, offset, x, x1, x2, r)
'''),
   (RNG, "def:GenericRangeOnlyStmtMaker.__call__", '''
def __call__(self, a, b, x=None):
    group = EcGroup()
    g, h = [group.hash_to_point(s) for s in (b"g", b"h")]
    r = Secret(value=group.order().random())
    com = (x * g + r * h).eval()
    a, b = ensure_bn(a), ensure_bn(b)
    num_bits, offset = _dimensions(a, b)
    x1, x2 = Secret(), Secret()
    if x is not None:
        x1.value = x.value - a
        x2.value = x1.value + offset
    return _two_sided(com, g, h, a, num_bits, offset, x, x1, x2, r)
'''),
   (RNG, "append:", '''

def _dimensions(a, b):
    width = b - a
    num_bits = max(1, (width - 1).num_bits())
    return num_bits, Bn(2) ** num_bits - width


def _two_sided(com, g, h, a, num_bits, offset, x, x1, x2, r):
    com_low = com - a * g
    com_high = com_low + offset * g
    low = PowerTwoRangeStmt(com=com_low, g=g, h=h, num_bits=num_bits, x=x1, randomizer=r)
    high = PowerTwoRangeStmt(com=com_high, g=g, h=h, num_bits=num_bits, x=x2, randomizer=r)
    return AndProofStmt(DLRep(com, x * g + r * h), low, high)
'''))

eq("eqv-bbs-3",
   (BBS, "def:BBSPlusSignature.verify_signature", '''
def verify_signature(self, pk, messages):
    g0, *others = pk.generators[: len(messages) + 2]
    product = g0 + g0.group.wsum([self.s, *messages], others)
    lhs = self.A.pair(pk.w + self.e * pk.h0)
    rhs = product.pair(pk.h0)
    return lhs == rhs
'''),
   (BBS, "def:UserCommitmentMessage.verify_blinding", '''
def verify_blinding(self, pk):
    nizk = self.com_nizk_proof
    if nizk is None:
        raise ValueError("No proof to verify")
    return _opening_stmt(self.com_message, pk, len(nizk.responses))[0].verify(nizk)
'''),
   (BBS, "def:BBSPlusSignatureCreator.commit", '''
def commit(self, messages, zkp=True):
    group = self.pk.generators[0].group
    lhs = group.wsum(messages, self.pk.generators[2 : len(messages) + 2])
    self.s1 = None
    if not zkp:
        return UserCommitmentMessage(com_message=lhs)

    self.s1 = group.order().random()
    lhs = lhs + self.s1 * self.pk.generators[1]
    stmt, secret_vars = _opening_stmt(lhs, self.pk, len(messages) + 1)
    nizk = stmt.prove(dict(zip(secret_vars, [self.s1, *messages])))
    return UserCommitmentMessage(lhs, nizk)
'''),
   (BBS, "def:BBSPlusSignatureCreator.obtain_signature", '''
def obtain_signature(self, presignature):
    s = presignature.s if self.s1 is None else self.s1 + presignature.s
    return attr.evolve(presignature, s=s)
'''),
   (BBS, "def:BBSPlusSecretKey.sign", '''
def sign(self, lhs):
    order = self.h0.group.order()
    e, s2 = order.random(), order.random()
    prod = lhs + self.generators[0] + s2 * self.generators[1]
    inverse = (self.gamma + e).mod_inverse(order)
    return BBSPlusSignature(inverse * prod, e, s2)
'''),
   (BBS, "def:BBSPlusSignatureStmt.__init__", '''
def __init__(self, secret_vars, pk, signature=None, binding=True, simulated=False):
    if not binding:
        secret_vars = [Secret(), Secret(), *secret_vars]
    self.secret_vars = secret_vars
    self.pk = pk
    self.signature = signature
    if self.signature is not None:
        e_var, s_var = secret_vars[0], secret_vars[1]
        e_var.value, s_var.value = signature.e, signature.s
    self.bases = pk.generators[: len(secret_vars)]
    self.order = self.bases[0].group.order()
    self.init_internal_secrets()
    self.set_simulated(simulated)
'''),
   (BBS, "def:BBSPlusSignatureStmt.init_internal_secrets", '''
def init_internal_secrets(self):
    self.r1, self.r2, self.delta1, self.delta2 = (Secret() for _ in range(4))
'''),
   (BBS, "def:BBSPlusSignatureStmt.get_prover", '''
def get_prover(self, secrets_dict=None):
    prover = super().get_prover(secrets_dict)
    known = self.signature is not None and all(s.value is not None for s in self.secret_vars)
    return prover if known else None
'''),
   (BBS, "def:BBSPlusSignatureStmt.precommit", '''
def precommit(self):
    if self.signature is None:
        raise ValueError("No signature given!")
    e = self.signature.e
    for r, delta in ((self.r1, self.delta1), (self.r2, self.delta2)):
        r.value = self.order.random()
        delta.value = (r.value * e) % self.order
    _, g1, g2 = self.bases[:3]
    return {
        "A1": self.r1.value * g1 + self.r2.value * g2,
        "A2": self.r1.value * g2 + self.signature.A,
    }
'''),
   (BBS, "def:BBSPlusSignatureStmt.construct_stmt", '''
def construct_stmt(self, precommitment):
    A1 = self.A1 = precommitment["A1"]
    A2 = self.A2 = precommitment["A2"]
    g0, g1, g2 = self.bases[:3]
    e_var, s_and_messages = self.secret_vars[0], self.secret_vars[1:]
    dl1 = DLRep(A1, self.r1 * g1 + self.r2 * g2)
    dl2 = DLRep(
        g0.group.infinite(), wsum_secrets([self.delta1, self.delta2, e_var], [g1, g2, A1 * -1])
    )
    pairs = self.pk.gen_pairs
    self.pair_lhs = self.A2.pair(self.pk.w) - pairs[0]
    bases = [A2.pair(self.pk.h0) * -1, g2.pair(self.pk.w), pairs[2]]
    bases += pairs[1 : len(self.bases)]
    rhs = wsum_secrets([e_var, self.r1, self.delta1, *s_and_messages], bases)
    stmt = AndProofStmt(dl1, dl2, DLRep(self.pair_lhs, rhs))
    stmt.lhs = [p.lhs for p in stmt.subproofs]
    return stmt
'''),
   (BBS, "def:BBSPlusSignatureStmt.simulate_precommit", '''
def simulate_precommit(self):
    group = self.bases[0].group
    generator, order = group.generator(), group.order()
    return {name: order.random() * generator for name in ("A1", "A2")}
'''),
   (BBS, "append:", '''

def _opening_stmt(lhs, pk, num_secrets):
    secret_vars = [Secret() for _ in range(num_secrets)]
    return DLRep(lhs, wsum_secrets(secret_vars, pk.generators[1 : num_secrets + 1])), secret_vars
'''))

eq("eqv-pair-3",
   (PAIR, "class:GTGroup", '''
class _GroupOps:
    """What the three groups share."""

    def __init__(self, bp):
        self.bp = bp
        self.gen = None
        self.inf = None

    def order(self):
        return self.bp.bpgp.order()

    def generator(self):
        if self.gen is None:
            self.gen = self._make_generator()
        return self.gen

    def infinite(self):
        if self.inf is None:
            self.inf = self._make_infinite()
        return self.inf

    def __eq__(self, other):
        if self.__class__ is not other.__class__:
            return False
        return self.bp.bpgp == other.bp.bpgp

    def sum(self, points):
        return functools.reduce(lambda acc, p: acc + p, points, self.infinite())

    def wsum(self, weights, generators):
        if len(weights) != len(generators):
            raise ValueError("Should have as many weights as generators.")
        return self.sum(w * g for w, g in zip(weights, generators))


class GTGroup(_GroupOps):
    """
    Wrapper for the GT group with additive points.

    Args:
        bp (:py:class:`BilinearGroupPair`): Group pair.
    """

    def _make_infinite(self):
        return AdditivePoint(self.generator().pt.one(self.bp.bpgp), self.bp)

    def _make_generator(self):
        return self.bp.G1.generator().pair(self.bp.G2.generator())


import functools
'''),
   (PAIR, "class:G1Group", '''
class G1Group(_GroupOps):
    """Wrapper for G1 that behaves like normal ``petlib.ec.EcGroup``."""

    def _make_generator(self):
        return G1Point(self.bp.bpgp.gen1(), self.bp)

    def _make_infinite(self):
        return G1Point(self.generator().pt.inf(self.bp.bpgp), self.bp)

    def hash_to_point(self, string):
        return G1Point(self.bp.bpgp.hashG1(string), self.bp)
'''),
   (PAIR, "class:G2Group", '''
class G2Group(_GroupOps):
    """Wrapper for the G2 group."""

    def _make_generator(self):
        return G2Point(self.bp.bpgp.gen2(), self.bp)

    def _make_infinite(self):
        return G2Point(self.generator().pt.inf(self.bp.bpgp), self.bp)
'''),
   (PAIR, "class:G1Point", '''
class _SourcePoint:
    """A point of one of the two source groups."""

    group_name = None

    def __init__(self, pt, bp):
        self.pt, self.bp = pt, bp
        self.group = getattr(bp, self.group_name)

    def _wrap(self, pt):
        return type(self)(pt, self.bp)

    def __eq__(self, other):
        return self.pt == other.pt

    def __add__(self, other):
        return self._wrap(self.pt + other.pt)

    def __sub__(self, other):
        return self + (-1 * other)

    def __mul__(self, nb):
        return self._wrap(self.pt * nb)

    __rmul__ = __mul__

    def export(self, form=0):
        if form:
            return self.pt.export(form)
        return self.pt.export()

    def __repr__(self):
        return "%sPt(%s)" % (self.group_name, self.pt.export().hex())


class G1Point(_SourcePoint):
    """Wrapper for G1 points so they can be paired with a G2 point."""

    group_name = "G1"

    def pair(self, other):
        return AdditivePoint(self.bp.bpgp.pair(self.pt, other.pt), self.bp)
'''),
   (PAIR, "class:G2Point", '''
class G2Point(_SourcePoint):
    """Wrapper for G2 points."""

    group_name = "G2"
'''),
   (PAIR, "def:AdditivePoint.__mul__", '''
def __mul__(self, nb):
    pt = self.pt.one(self.bp.bpgp) if nb == 0 else self.pt ** nb
    return AdditivePoint(pt, self.bp)
'''))

eq("eqv-utils-3",
   (GRP, "def:get_random_point", '''
def get_random_point(group=None, random_bits=256, seed=None):
    group = DEFAULT_GROUP if group is None else group
    return group.hash_to_point(_point_seed(-(-random_bits // 8), seed))


def _point_seed(num_bytes, seed):
    if seed is None:
        return secrets.token_bytes(num_bytes)
    return hashlib.sha512(str(seed).encode("ascii")).digest()[:num_bytes]
'''),
   (GRP, "def:make_generators", '''
def make_generators(num, group=None, random_bits=256, seed=42):
    if group is None:
        group = DEFAULT_GROUP
    generators = []
    for i in range(num):
        point_seed = None if seed is None else seed + i
        generators.append(get_random_point(group, random_bits, seed=point_seed))
    return generators
'''),
   (GRP, "def:get_random_num", '''
def get_random_num(bits):
    return (Bn(2) ** bits).random()
'''),
   (GRP, "def:sum_bn_array", '''
def sum_bn_array(arr, modulus):
    modulus = ensure_bn(modulus)
    total = Bn(0)
    for elem in map(ensure_bn, arr):
        total = total.mod_add(elem, modulus)
    return total
'''),
   (GRP, "def:ensure_bn", '''
def ensure_bn(x):
    return x if isinstance(x, Bn) else Bn(x)
'''),
   (MISC, "def:get_default_attr", '''
def get_default_attr(obj, attr, default_value=None):
    try:
        return getattr(obj, attr)
    except AttributeError:
        setattr(obj, attr, default_value)
        return default_value
'''))


eq("eqv-expr-3",
   (EXPR, "def:Secret._generate_unique_name", '''
def _generate_unique_name(self):
    digest = hashlib.sha256(struct.pack(">q", object.__hash__(self)))
    length = self.NUM_NAME_BYTES * 4
    return digest.hexdigest()[:length]
'''),
   (EXPR, "def:Secret.__init__", '''
def __init__(self, value=None, name=None):
    self.name = self._generate_unique_name() if name is None else name
    self.value = value
'''),
   (EXPR, "def:Secret.__hash__", '''
def __hash__(self):
    return hash((type(self).__name__, self.name))
'''),
   (EXPR, "def:Secret.__repr__", '''
def __repr__(self):
    parts = []
    if self.value is not None:
        parts.append(str(self.value))
    if self.name is not None:
        parts.append(repr(self.name) if parts else "name={!r}".format(self.name))
    return "Secret({})".format(", ".join(parts))
'''),
   (EXPR, "def:Expression.__add__", '''
def __add__(self, other):
    if not isinstance(other, Expression):
        raise InvalidExpression("Invalid expression. Only linear combinations of group elements are supported.")
    result = Expression(self._secrets[0], self._bases[0])
    result._secrets = [*self._secrets, *other._secrets]
    result._bases = [*self._bases, *other._bases]
    return result
'''))

eq("eqv-expr-4",
   (EXPR, "def:Secret._generate_unique_name", '''
def _generate_unique_name(self):
    return "{:016x}".format(id(self))
'''),
   (EXPR, "def:Secret.__eq__", '''
def __eq__(self, other):
    if not isinstance(other, Secret):
        return NotImplemented
    return self.name == other.name and self.value == other.value
'''))

eq("eqv-expr-5",
   (EXPR, "import struct", "import secrets\nimport struct"),
   (EXPR, "def:Secret._generate_unique_name", '''
def _generate_unique_name(self):
    return secrets.token_hex(2 * self.NUM_NAME_BYTES)
'''))

# ------------------------------------------------------------------ further styles

eq("eqv-comp-4",
   (COMP, "def:OrProver.__init__", '''
def __init__(self, stmt, subprover):
    self.subprover, self.stmt = subprover, stmt
    self.true_prover_idx = stmt.chosen_idx
    self.setup_simulations()
'''),
   (COMP, "def:OrProver.setup_simulations", '''
def setup_simulations(self):
    def simulated(subproof):
        subproof.prepare_simulate_proof()
        return subproof.simulate_proof()

    self.simulations = [
        simulated(sub) for i, sub in enumerate(self.stmt.subproofs) if i != self.true_prover_idx
    ]

def _merge(self, true_part, attribute):
    """The parts of all the clauses in order: the given one, and those of the simulations."""
    parts = [getattr(sim, attribute) for sim in self.simulations]
    parts.insert(self.true_prover_idx, true_part)
    return parts
'''),
   (COMP, "def:OrProver.precommit", '''
def precommit(self):
    parts = self._merge(self.subprover.precommit(), "precommitment")
    return parts if any(p is not None for p in parts) else None
'''),
   (COMP, "def:OrProver.internal_commit", '''
def internal_commit(self, randomizers_dict=None):
    self.stmt.validate_composition()
    return self._merge(self.subprover.internal_commit(), "commitment")
'''),
   (COMP, "def:OrProver.compute_response", '''
def compute_response(self, challenge):
    drawn = [sim.challenge for sim in self.simulations]
    residual = _find_residual_challenge(drawn, challenge, CHALLENGE_LENGTH)
    response = self.subprover.compute_response(residual)
    return (self._merge(residual, "challenge"), self._merge(response, "responses"))
'''),
   (COMP, "def:OrProofStmt.recompute_commitment", '''
def recompute_commitment(self, challenge, responses):
    self.or_challenges, subresponses = responses
    self._check_subchallenges(challenge)
    return [
        sub.recompute_commitment(chal, resp)
        for sub, chal, resp in zip(self.subproofs, self.or_challenges, _exactly(subresponses, len(self.subproofs)))
    ]

def _check_subchallenges(self, challenge):
    if len(self.or_challenges) != len(self.subproofs):
        raise InconsistentChallengeError("Unexpected number of subchallenges.")
    space = Bn(2).pow(CHALLENGE_LENGTH)
    if not all(0 <= c < space for c in self.or_challenges):
        raise InconsistentChallengeError("Subchallenge out of range.")
    if _find_residual_challenge(self.or_challenges, challenge, CHALLENGE_LENGTH) != Bn(0):
        raise InconsistentChallengeError("Inconsistent challenges.")
'''),
   (COMP, "def:_assign_secret_ids", '''
def _assign_secret_ids(secret_vars):
    names = list(dict.fromkeys(s.name for s in secret_vars))
    return {name: i for i, name in enumerate(names)}


def _exactly(items, n):
    """The first items, all of which have to be there."""
    return [items[i] for i in range(n)]
'''),
   )

eq("eqv-comp-5",
   (COMP, "def:OrProofStmt.get_prover", '''
def get_prover(self, secrets_dict=None):
    secrets_dict = {} if secrets_dict is None else secrets_dict
    update_secret_values(secrets_dict)
    if self.simulated:
        return None
    order = [i for i, sub in enumerate(self.subproofs) if not sub.simulated]
    if not order:
        print("Cannot run an or-proof if all elements are simulated")
        return None
    # Trying them in a random order.
    random.SystemRandom().shuffle(order)
    for self.chosen_idx in order:
        prover = self._try_get_subprover(secrets_dict)
        if prover is not None:
            return OrProver(self, prover)
    self.chosen_idx = None
    return None
'''),
   (COMP, "def:OrProofStmt._try_get_subprover", '''
def _try_get_subprover(self, secrets_dict):
    prover = None
    try:
        prover = self.subproofs[self.chosen_idx].get_prover(secrets_dict)
    except ValueError:
        pass
    return prover
'''),
   (COMP, "def:AndProofStmt.get_prover", '''
def get_prover(self, secrets_dict=None):
    secrets_dict = {} if secrets_dict is None else secrets_dict
    update_secret_values(secrets_dict)
    if self.simulated:
        return None
    subs = []
    for sub in self.subproofs:
        subs.append(sub.get_prover(secrets_dict))
    if any(s is None for s in subs):
        raise ValueError("Failed to construct prover for a conjunct")
    return AndProver(self, subs)
'''),
   (COMP, "def:ComposableProofStmt.__and__", '''
def __and__(self, other):
    return AndProofStmt(*_flattened(AndProofStmt, self, other))
'''),
   (COMP, "def:ComposableProofStmt.__or__", '''
def __or__(self, other):
    return OrProofStmt(*_flattened(OrProofStmt, self, other))
'''),
   (COMP, "def:_find_residual_challenge", '''
def _flattened(cls, *stmts):
    """The statements, those of the given class replaced by their subproofs."""
    for stmt in stmts:
        if isinstance(stmt, cls):
            yield from stmt.subproofs
        else:
            yield stmt


def _find_residual_challenge(subchallenges, challenge, modulus):
    space = Bn(2).pow(modulus)
    rest = challenge
    for c in subchallenges:
        rest = rest - c
    return rest % space
'''),
   (COMP, "def:_CommonComposedStmtMixin.validate_group_orders", '''
def validate_group_orders(self):
    orders = {}
    for secret, base in zip(self.get_secret_vars(), self.get_bases()):
        order = base.group.order()
        if orders.setdefault(secret, order) != order:
            raise GroupMismatchError(
                "A shared secret has bases which yield different group orders: %s" % secret.name
            )
'''),
   (COMP, "def:OrProofStmt.validate_secrets_reoccurence", '''
def validate_secrets_reoccurence(self, forbidden_secrets=None):
    for sub in self.subproofs:
        sub.validate_secrets_reoccurence()
    if forbidden_secrets is None:
        return
    own = self.get_secret_vars()
    if any(forbidden_secrets.count(s) > own.count(s) for s in own):
        raise InvalidSecretsError(
            "Invalid secrets found. Try to flatten the proof to avoid "
            "using secrets used inside an or-proof in other parts of "
            "the proof too (e.g., in other and or or-clauses)"
        )
'''),
   )

eq("eqv-comp-6",
   (COMP, "def:OrProofStmt.simulate_proof", '''
def simulate_proof(self, challenge=None, *args, **kwargs):
    if challenge is None:
        challenge = get_random_num(bits=CHALLENGE_LENGTH)
    *others, last = self.subproofs
    transcripts = [sub.simulate_proof() for sub in others]
    rest = _find_residual_challenge([t.challenge for t in transcripts], challenge, CHALLENGE_LENGTH)
    transcripts.append(last.simulate_proof(challenge=rest))
    or_chals = [t.challenge for t in transcripts[:-1]] + [rest]
    return SimulationTranscript(
        commitment=[t.commitment for t in transcripts],
        challenge=challenge,
        responses=(or_chals, [t.responses for t in transcripts]),
        precommitment=_precommitments(transcripts),
    )
'''),
   (COMP, "def:AndProofStmt.simulate_proof", '''
def simulate_proof(self, responses_dict=None, challenge=None):
    responses_dict = self.update_randomizers(responses_dict)
    challenge = get_random_num(CHALLENGE_LENGTH) if challenge is None else challenge
    transcripts = [
        sub.simulate_proof(challenge=challenge, responses_dict=responses_dict)
        for sub in self.subproofs
    ]
    return SimulationTranscript(
        commitment=[t.commitment for t in transcripts],
        challenge=challenge,
        responses=[t.responses for t in transcripts],
        precommitment=_precommitments(transcripts),
    )
'''),
   (COMP, "def:_assign_secret_ids", '''
def _assign_secret_ids(secret_vars):
    secret_id_map = {}
    for secret in secret_vars:
        if secret.name in secret_id_map:
            continue
        secret_id_map[secret.name] = len(secret_id_map)
    return secret_id_map


def _precommitments(transcripts):
    """The precommitments of the clauses, None if no one has any."""
    found = [t.precommitment for t in transcripts]
    if set(p is None for p in found) == {True}:
        return None
    return found
'''),
   (COMP, "def:AndProofStmt.get_randomizers", '''
def get_randomizers(self):
    gens = dict(zip(self.get_secret_vars(), self.get_bases()))
    return {secret: gen.group.order().random() for secret, gen in gens.items()}
'''),
   (COMP, "def:ComposableProofStmt.update_randomizers", '''
def update_randomizers(self, randomizers_dict):
    if randomizers_dict is None:
        return self.get_randomizers()
    missing = [s for s in self.get_secret_vars() if s not in randomizers_dict]
    if not missing:
        return randomizers_dict
    return {**self.get_randomizers(), **randomizers_dict}
'''),
   (COMP, "def:AndProver.precommit", '''
def precommit(self):
    found = [sub.precommit() for sub in self.subs]
    return None if all(p is None for p in found) else found
'''),
   (COMP, "def:AndProver.internal_commit", '''
def internal_commit(self, randomizers_dict=None):
    self.stmt.validate_composition()
    rand = self.stmt.update_randomizers(randomizers_dict)
    self.commitment = [sub.internal_commit(randomizers_dict=rand) for sub in self.subs]
    return self.commitment
'''),
   (COMP, "def:AndVerifier.check_responses_consistency", '''
def check_responses_consistency(self, responses, responses_dict=None):
    known = {} if responses_dict is None else responses_dict
    return all(
        sub.check_responses_consistency(responses[i], known) for i, sub in enumerate(self.subs)
    )
'''),
   (COMP, "def:OrVerifier.check_responses_consistency", '''
def check_responses_consistency(self, responses, responses_dict=None):
    _, subresponses = responses
    bad = [i for i, sub in enumerate(self.subs) if not sub.check_responses_consistency(subresponses[i], {})]
    return not bad
'''),
   (COMP, "def:AndVerifier.process_precommitment", '''
def process_precommitment(self, precommitment):
    if precommitment is not None:
        for i in range(len(self.subs)):
            self.subs[i].process_precommitment(precommitment[i])
'''),
   )

eq("eqv-base-4",
   (BASE, "def:build_fiat_shamir_challenge", '''
def build_fiat_shamir_challenge(stmt_prehash, *args, message=""):
    def as_bytes(elem):
        return elem if isinstance(elem, (bytes, str)) else encode(elem)

    for chunk in [*map(as_bytes, args), message.encode()]:
        stmt_prehash.update(chunk)
    return Bn.from_hex(stmt_prehash.hexdigest())
'''),
   (BASE, "def:NIZK.serialize", '''
def serialize(self):
    fields = ("challenge", "responses", "precommitment", "stmt_hash")
    return msgpack.packb([encode(getattr(self, f)) for f in fields], use_bin_type=True)
'''),
   (BASE, "def:NIZK.deserialize", '''
@classmethod
def deserialize(cls, nizk_raw):
    challenge, responses, precommitment, stmt_hash = map(decode, msgpack.unpackb(nizk_raw))
    return cls(
        challenge=challenge, responses=responses, precommitment=precommitment, stmt_hash=stmt_hash
    )
'''),
   (BASE, "def:Prover.get_nizk_proof", '''
def get_nizk_proof(self, message=""):
    precommitment = self.precommit()
    messages = (precommitment, self.internal_commit())
    prehash = self.stmt.prehash_statement()
    nizk = NIZK(None, None, precommitment, prehash.digest())
    nizk.challenge = build_fiat_shamir_challenge(prehash, *messages, message=message)
    nizk.responses = self.compute_response(nizk.challenge)
    return nizk
'''),
   (BASE, "def:Verifier.pre_verification_validation", '''
def pre_verification_validation(self, response, *args, **kwargs):
    self.stmt.full_validate(*args, **kwargs)
    consistent = self.check_responses_consistency(response, {})
    if consistent:
        return
    raise ValidationError("Responses for the same secret name do not match.")

def _validated_commitment(self, challenge, response, *args, **kwargs):
    """The commitment which fits the challenge and the responses."""
    self.pre_verification_validation(response, *args, **kwargs)
    return self.stmt.recompute_commitment(challenge, response)
'''),
   (BASE, "def:Verifier.verify", '''
def verify(self, response, *args, **kwargs):
    expected = self._validated_commitment(self.challenge, response, *args, **kwargs)
    return self.commitment == expected
'''),
   (BASE, "def:Verifier.verify_nizk", '''
def verify_nizk(self, nizk, message="", *args, **kwargs):
    if nizk.precommitment is not None:
        self.process_precommitment(nizk.precommitment)
    prehash = self.stmt.check_statement(nizk.stmt_hash)
    challenge_prime = build_fiat_shamir_challenge(
        prehash,
        nizk.precommitment,
        self._validated_commitment(nizk.challenge, nizk.responses, *args, **kwargs),
        message=message,
    )
    return challenge_prime == nizk.challenge
'''),
   )

eq("eqv-rng-4",
   (RNG, "def:decompose_into_n_bits", '''
def decompose_into_n_bits(value, n):
    if value < 0:
        raise Exception("Can't represent negative values")
    if value.num_bits() > n:
        raise Exception("Not enough bits to represent value")
    return [int(value.is_bit_set(b)) for b in range(n)]


def _weighted(numbers, order):
    """The sum of 2^i times the i-th number."""
    total = Bn(0)
    for number in reversed(numbers):
        total = (2 * total + number) % order
    return total


def _shifts(com, g, a, b):
    """The number of bits, the offset and the shifted commitments of a range."""
    num_bits = max(1, (b - a - 1).num_bits())
    offset = Bn(2) ** num_bits - (b - a)
    lower = com - a * g
    return num_bits, offset, lower, lower + offset * g
'''),
   (RNG, "def:PowerTwoRangeStmt.init_internal_secrets", '''
def init_internal_secrets(self):
    self.randomizers = []
    while len(self.randomizers) < self.num_bits:
        self.randomizers.append(Secret())
'''),
   (RNG, "def:PowerTwoRangeStmt.precommit", '''
def precommit(self):
    bits = decompose_into_n_bits(ensure_bn(self.x.value), self.num_bits)
    commitments = []
    for bit, secret in zip(bits, self.randomizers):
        secret.value = self.order.random()
        commitments.append(bit * self.g + secret.value * self.h)
    total = _weighted([s.value for s in self.randomizers], self.order)
    return dict(Cs=commitments, rand=(total - self.randomizer.value) % self.order)
'''),
   (RNG, "def:PowerTwoRangeStmt.construct_stmt", '''
def _known_bits(self):
    """The bits of the value, if there is one which is in the range."""
    if not self.is_prover:
        return None
    value = ensure_bn(self.x.value)
    if value < 0 or value.num_bits() > self.num_bits:
        return None
    return decompose_into_n_bits(value, self.num_bits)

def construct_stmt(self, precommitment):
    bits = self._known_bits()
    proofs = []
    for i, secret in enumerate(self.randomizers):
        com = precommitment["Cs"][i]
        clauses = [DLRep(point, secret * self.h) for point in (com, com - self.g)]
        if bits is not None:
            for value, clause in enumerate(clauses):
                clause.set_simulated(bits[i] != value)
        proofs.append(clauses[0] | clauses[1])
    if len(proofs) == 1:
        return proofs[0]
    return AndProofStmt(*proofs)
'''),
   (RNG, "def:PowerTwoRangeStmt.simulate_precommit", '''
def simulate_precommit(self):
    randomizers = [self.order.random() for _ in range(self.num_bits)]
    first, *others = [r * self.h for r in randomizers]
    return {"Cs": [first + self.com] + others, "rand": _weighted(randomizers, self.order)}
'''),
   (RNG, "def:PowerTwoRangeStmt.validate", '''
def validate(self, precommitment):
    commitments, rand = precommitment["Cs"], precommitment["rand"]
    if len(commitments) != self.num_bits:
        raise ValidationError("Unexpected number of bit commitments")
    combined = self.g.group.infinite()
    for c in commitments[::-1]:
        combined = combined + combined + c
    if not combined == self.com + rand * self.h:
        raise ValidationError("The commitments do not combine correctly")
'''),
   (RNG, "def:GenericRangeStmtMaker.__call__", '''
def __call__(self, com, g, h, a, b, x, r):
    a, b = ensure_bn(a), ensure_bn(b)
    num_bits, offset, low, high = _shifts(com, g, a, b)
    values = (None, None)
    if x.value is not None:
        values = (x.value - a, x.value - a + offset)
        if not (a <= x.value < b):
            warnings.warn("Secret outside of given range [{}, {})".format(a, b))
    stmts = [DLRep(com, x * g + r * h)]
    for shifted, value in zip((low, high), values):
        stmts.append(
            PowerTwoRangeStmt(
                com=shifted, g=g, h=h, num_bits=num_bits, x=Secret(value=value), randomizer=r
            )
        )
    return AndProofStmt(*stmts)
'''),
   (RNG, "def:GenericRangeOnlyStmtMaker.__call__", '''
def __call__(self, a, b, x=None):
    group = EcGroup()
    g, h = (group.hash_to_point(name) for name in (b"g", b"h"))
    r = Secret(value=group.order().random())
    com = (x * g + r * h).eval()
    a, b = ensure_bn(a), ensure_bn(b)
    num_bits, offset, low, high = _shifts(com, g, a, b)
    x1, x2 = Secret(), Secret()
    if x is not None:
        x1.value = x.value - a
        x2.value = x1.value + offset
    common = dict(g=g, h=h, num_bits=num_bits, randomizer=r)
    return (
        DLRep(com, x * g + r * h)
        & PowerTwoRangeStmt(com=low, x=x1, **common)
        & PowerTwoRangeStmt(com=high, x=x2, **common)
    )
'''),
   )

eq("eqv-bbs-4",
   (BBS, "def:BBSPlusSignature.verify_signature", '''
def verify_signature(self, pk, messages):
    first, *others = pk.generators[: len(messages) + 2]
    product = first.group.wsum([self.s, *messages], others) + first
    return product.pair(pk.h0) == self.A.pair(self.e * pk.h0 + pk.w)
'''),
   (BBS, "def:UserCommitmentMessage.verify_blinding", '''
def verify_blinding(self, pk):
    nizk = self.com_nizk_proof
    if nizk is None:
        raise ValueError("No proof to verify")
    return _opening(self.com_message, pk, len(nizk.responses))[0].verify(nizk)
'''),
   (BBS, "def:BBSPlusSignatureCreator.commit", '''
def commit(self, messages, zkp=True):
    generators = self.pk.generators[1 : len(messages) + 2]
    group = self.pk.generators[0].group
    if not zkp:
        self.s1 = None
        return UserCommitmentMessage(com_message=group.wsum(messages, generators[1:]))
    self.s1 = group.order().random()
    values = [self.s1] + messages
    com = group.wsum(values, generators)
    stmt, secret_vars = _opening(com, self.pk, len(values))
    return UserCommitmentMessage(com, stmt.prove(dict(zip(secret_vars, values))))
'''),
   (BBS, "def:BBSPlusSignatureCreator.obtain_signature", '''
def obtain_signature(self, presignature):
    s = presignature.s if self.s1 is None else self.s1 + presignature.s
    return attr.evolve(presignature, s=s)
'''),
   (BBS, "def:BBSPlusSecretKey.sign", '''
def sign(self, lhs):
    order = self.h0.group.order()
    e, s2 = order.random(), order.random()
    base = lhs + self.generators[0] + s2 * self.generators[1]
    inverse = (self.gamma + e).mod_inverse(order)
    return BBSPlusSignature(inverse * base, e, s2)
'''),
   (BBS, "def:BBSPlusSignatureStmt.construct_stmt", '''
def construct_stmt(self, precommitment):
    self.A1 = precommitment["A1"]
    self.A2 = precommitment["A2"]
    return self._make_stmt(*self.bases[:3])

def _make_stmt(self, g0, g1, g2):
    e, *messages = self.secret_vars
    opening = DLRep(self.A1, wsum_secrets([self.r1, self.r2], [g1, g2]))
    product = DLRep(
        g0.group.infinite(),
        wsum_secrets([self.delta1, self.delta2, e], [g1, g2, -1 * self.A1]),
    )
    self.pair_lhs = self.A2.pair(self.pk.w) + (-1 * self.pk.gen_pairs[0])
    terms = [
        (e, -1 * (self.A2.pair(self.pk.h0))),
        (self.r1, g2.pair(self.pk.w)),
        (self.delta1, self.pk.gen_pairs[2]),
        *zip(messages, self.pk.gen_pairs[1 : len(self.bases)]),
    ]
    secret_vars, bases = zip(*terms)
    stmt = AndProofStmt(
        opening, product, DLRep(self.pair_lhs, wsum_secrets(list(secret_vars), list(bases)))
    )
    stmt.lhs = [p.lhs for p in stmt.subproofs]
    return stmt
'''),
   (BBS, "def:BBSPlusSignatureStmt.precommit", '''
def precommit(self):
    if self.signature is None:
        raise ValueError("No signature given!")
    e = self.signature.e
    for r, delta in ((self.r1, self.delta1), (self.r2, self.delta2)):
        r.value = self.order.random()
        delta.value = (r.value * e) % self.order
    _, g1, g2 = self.bases[:3]
    return {
        "A1": self.r1.value * g1 + self.r2.value * g2,
        "A2": self.signature.A + self.r1.value * g2,
    }
'''),
   (BBS, "def:BBSPlusSignatureStmt.simulate_precommit", '''
def simulate_precommit(self):
    group = self.bases[0].group
    return {name: group.order().random() * group.generator() for name in ("A1", "A2")}

'''),
   (BBS, "append:", '''

def _opening(lhs, pk, n):
    """The statement on the values of a blinded product, and its secrets."""
    secret_vars = [Secret() for _ in range(n)]
    return DLRep(lhs, wsum_secrets(secret_vars, pk.generators[1 : n + 1])), secret_vars
'''),
   (BBS, "def:BBSPlusSignatureStmt.get_prover", '''
def get_prover(self, secrets_dict=None):
    prover = super().get_prover(secrets_dict)
    ready = self.signature is not None and all(s.value is not None for s in self.secret_vars)
    return prover if ready else None
'''),
   )

eq("eqv-ext-4",
   (EXT, "def:ExtendedProofStmt.constructed_stmt", '''
_constructed_stmt = None
_precommitment = None

@property
def constructed_stmt(self):
    return self._constructed_stmt
'''),
   (EXT, "def:ExtendedProofStmt.precommitment", '''
@property
def precommitment(self):
    return self._precommitment
'''),
   (EXT, "def:ExtendedProofStmt.__copy__", '''
def __copy__(self):
    cls = type(self)
    stmt = cls.__new__(cls)
    for name, value in vars(self).items():
        setattr(stmt, name, value)
    stmt.init_internal_secrets()
    return stmt
'''),
   (EXT, "def:ExtendedProofStmt.get_prover", '''
def get_prover(self, secrets_dict=None):
    self.secret_values = dict(secrets_dict) if secrets_dict is not None else {}
    for secret in self.secret_values:
        secret.value = self.secret_values[secret]
    return None if self.simulated else ExtendedProver(self, self.secret_values)
'''),
   (EXT, "def:ExtendedProofStmt.get_proof_id", '''
def get_proof_id(self, secret_id_map=None):
    inner = self.constructed_stmt
    if inner is None:
        raise ValueError("Proof ID unknown before the proof is constructed.")
    return [type(self).__name__, self.precommitment, inner.get_proof_id(secret_id_map)]
'''),
   (EXT, "def:ExtendedProofStmt.prepare_simulate_proof", '''
def prepare_simulate_proof(self):
    self.full_construct_stmt(self.simulate_precommit())
'''),
   (EXT, "def:ExtendedProofStmt.simulate_proof", '''
def simulate_proof(self, responses_dict=None, challenge=None):
    tr = self.constructed_stmt.simulate_proof(
        responses_dict=responses_dict, challenge=challenge
    )
    tr.precommitment = self.precommitment
    return tr
'''),
   (EXT, "def:ExtendedProver.precommit", '''
def precommit(self):
    self.precommitment = self.stmt._precommit()
    self.process_precommitment()
    for p in getattr(self.constructed_prover, "subs", ()):
        p.precommit()
    return self.precommitment
'''),
   (EXT, "def:ExtendedProver.compute_response", '''
def compute_response(self, challenge):
    inner = self.constructed_prover
    self.challenge = inner.challenge = challenge
    self.response = inner.compute_response(challenge)
    return self.response
'''),
   (EXT, "def:ExtendedVerifier.process_precommitment", '''
def process_precommitment(self, precommitment):
    self.precommitment = precommitment
    inner = self.stmt.full_construct_stmt(precommitment)
    self.constructed_verifier = inner.get_verifier()
'''),
   )

eq("eqv-dlrep-5",
   (DL, "def:DLRepVerifier.check_responses_consistency", '''
def check_responses_consistency(self, responses, responses_dict=None):
    known = responses_dict if responses_dict is not None else {}
    consistent = True
    for i, secret in enumerate(self.stmt.secret_vars):
        if known.setdefault(secret, responses[i]) != responses[i]:
            consistent = False
            break
    return consistent
'''),
   (DL, "def:DLRep.__init__", '''
def __init__(self, lhs, expr, simulated=False):
    if not isinstance(expr, Expression):
        raise TypeError("Expected an Expression. Got: {}".format(type(expr).__name__))
    self.lhs = lhs
    self.bases, self.secret_vars = [*expr.bases], [*expr.secrets]
    group = self.bases[0].group
    stray = next((g for g in self.bases if g.group != group), None)
    if stray is not None:
        raise InvalidExpression("All bases should come from the same group", stray.group)
    self.secret_values = {s: s.value for s in self.secret_vars if s.value is not None}
    self.set_simulated(simulated)
'''),
   (DL, "def:DLRep.get_prover", '''
def get_prover(self, secrets_dict=None):
    if secrets_dict is not None:
        self.secret_values.update(secrets_dict)
    values = self.secret_values
    if self.simulated or not values:
        return None
    if not set(self.secret_vars) <= set(values):
        return None
    for secret in list(values):
        if not isinstance(values[secret], Bn):
            values[secret] = Bn(values[secret])
    return DLRepProver(self, values)
'''),
   (DL, "def:DLRep.get_randomizers", '''
def get_randomizers(self):
    draw = self.bases[0].group.order().random
    return {secret: draw() for secret in dict.fromkeys(self.secret_vars)}
'''),
   (DL, "def:DLRep.recompute_commitment", '''
def recompute_commitment(self, challenge, responses):
    group = self.lhs.group
    return group.wsum(responses, self.bases) - challenge * self.lhs
'''),
   (DL, "def:DLRep.simulate_proof", '''
def simulate_proof(self, responses_dict=None, challenge=None):
    values = self.update_randomizers(responses_dict)
    if challenge is None:
        challenge = get_random_num(CHALLENGE_LENGTH)
    responses = list(map(values.__getitem__, self.secret_vars))
    return SimulationTranscript(
        self.recompute_commitment(challenge, responses), challenge, responses
    )
'''),
   (DL, "def:DLRepProver.internal_commit", '''
def internal_commit(self, randomizers_dict=None):
    stmt = self.stmt
    rand = stmt.update_randomizers(randomizers_dict)
    self.ks = []
    total = stmt.bases[0].group.infinite()
    for secret, base in zip(stmt.secret_vars, stmt.bases):
        self.ks.append(rand[secret])
        total = total + self.ks[-1] * base
    return total
'''),
   (DL, "def:DLRepProver.compute_response", '''
def compute_response(self, challenge):
    order = self.stmt.bases[0].group.order()

    def respond(secret, k):
        return (k + challenge * self.secret_values[secret]) % order

    return [respond(s, k) for s, k in zip(self.stmt.secret_vars, self.ks)]
'''),
   )

eq("eqv-neq-4",
   (NEQ, "def:DLNotEqual.__init__", '''
def __init__(self, valid_pair, invalid_pair, x, bind=False, simulated=False):
    if {len(valid_pair), len(invalid_pair)} != {2}:
        raise TypeError("The valid_pair and invalid_pair must be pairs")
    (lhs0, self.g), (lhs1, self.h) = valid_pair, invalid_pair
    self.lhs = [lhs0, lhs1]
    self.x, self.bind = x, bind
    self.init_internal_secrets()
    self.set_simulated(simulated)
'''),
   (NEQ, "def:DLNotEqual.get_prover", '''
def get_prover(self, secrets_dict=None):
    prover = super().get_prover(secrets_dict)
    if self.x.value is None:
        prover = None
    return prover
'''),
   (NEQ, "def:DLNotEqual.precommit", '''
def precommit(self):
    order = self.g.group.order()
    x, blinder = self.x.value, order.random()
    self.alpha.value, self.beta.value = (x * blinder) % order, (order - blinder) % order
    difference = x * self.h - self.lhs[1]
    return blinder * difference
'''),
   (NEQ, "def:DLNotEqual.construct_stmt", '''
def construct_stmt(self, precommitment):
    lhs = (self.g.group.infinite(), precommitment)
    rows = zip(lhs, (self.g, self.h), self.lhs)
    stmts = [DLRep(l, wsum_secrets([self.alpha, self.beta], [b, y])) for l, b, y in rows]
    return AndProofStmt(*stmts, *self._binding())

def _binding(self):
    """Repeats the first member for the secret itself, if the proof is binding."""
    if self.bind:
        yield DLRep(self.lhs[0], self.x * self.g)
'''),
   (NEQ, "def:DLNotEqual.simulate_precommit", '''
def simulate_precommit(self):
    group = self.g.group
    return group.order().random() * group.generator()
'''),
   )

eq("eqv-expr-6",
   (EXPR, "import hashlib", "import functools\nimport hashlib\nimport operator"),
   (EXPR, "def:Expression.__init__", '''
def __init__(self, secret, base):
    if not isinstance(secret, Secret):
        raise InvalidExpression(
            "In {0} * {1}, the first parameter should be a Secret".format(secret, base)
        )
    self._terms = ((secret, base),)
'''),
   (EXPR, "def:Expression.__add__", '''
def __add__(self, other):
    if not isinstance(other, Expression):
        raise InvalidExpression(
            "Invalid expression. Only linear combinations of group elements are supported."
        )
    result = Expression.__new__(Expression)
    result._terms = self._terms + other._terms
    return result
'''),
   (EXPR, "def:Expression.secrets", '''
@property
def secrets(self):
    return tuple(secret for secret, _ in self._terms)
'''),
   (EXPR, "def:Expression.bases", '''
@property
def bases(self):
    return tuple(base for _, base in self._terms)
'''),
   (EXPR, "def:Expression.eval", '''
def eval(self):
    missing = [secret for secret, _ in self._terms if secret.value is None]
    if missing:
        raise IncompleteValuesError("Secret {0} does not have a value".format(missing[0].name))
    return functools.reduce(operator.add, (secret.value * base for secret, base in self._terms))
'''),
   (EXPR, "def:Expression.__repr__", '''
def __repr__(self):
    return " + ".join("Expression({}, {})".format(*term) for term in self._terms)
'''),
   (EXPR, "def:wsum_secrets", '''
def wsum_secrets(secrets, bases):
    if len(secrets) != len(bases):
        raise ValueError("Should have as many secrets as bases.")
    return functools.reduce(operator.add, map(operator.mul, secrets, bases))
'''),
   (EXPR, "def:update_secret_values", '''
def update_secret_values(secrets_dict):
    for secret in secrets_dict:
        secret.value = secrets_dict[secret]
'''),
   )

eq("eqv-pair-4",
   (PAIR, "def:GTGroup.wsum", ""), (PAIR, "def:GTGroup.sum", ""),
   (PAIR, "def:G1Group.wsum", ""), (PAIR, "def:G1Group.sum", ""),
   (PAIR, "def:G2Group.wsum", ""), (PAIR, "def:G2Group.sum", ""),
   (PAIR, "def:G1Group.infinite", '''
def infinite(self):
    self.inf = self.inf or G1Point(self.generator().pt.inf(self.bp.bpgp), self.bp)
    return self.inf
'''),
   (PAIR, "def:pt_enc", '''
def pt_enc(obj):
    return msgpack.packb([obj.bp.bpgp.nid, obj.pt.export()])
'''),
   (PAIR, "def:pt_dec", '''
def pt_dec(bptype, xtype):
    return functools.partial(_decode_point, bptype, xtype)


def _decode_point(bptype, xtype, data):
    pair = BilinearGroupPair()
    _, raw = msgpack.unpackb(data)
    return xtype(bptype.from_bytes(raw, pair.bpgp), pair)
'''),
   (PAIR, "# Register encoders and decoders for pairing points\n", '''
def _sum(self, points):
    """The sum of points."""
    return functools.reduce(lambda a, b: a + b, points, self.infinite())


def _wsum(self, weights, generators):
    """The sum of points with weights."""
    if len(weights) == len(generators):
        return _sum(self, [w * g for w, g in zip(weights, generators)])
    raise ValueError("Should have as many weights as generators.")


for _cls in (GTGroup, G1Group, G2Group):
    _cls.sum, _cls.wsum = _sum, _wsum

# Register encoders and decoders for pairing points
'''),
   (PAIR, "import attr\n", "import functools\n\nimport attr\n"),
   )

eq("eqv-utils-4",
   (GRP, "import math\n", "import functools\nimport itertools\nimport math\n"),
   (GRP, "def:make_generators", '''
def make_generators(num, group=None, random_bits=256, seed=42):
    group = DEFAULT_GROUP if group is None else group
    seeds = itertools.repeat(None) if seed is None else itertools.count(seed)
    return [
        get_random_point(group, random_bits, seed=s) for s in itertools.islice(seeds, num)
    ]
'''),
   (GRP, "def:get_random_num", '''
def get_random_num(bits):
    return (Bn(2) ** bits).random()
'''),
   (GRP, "def:sum_bn_array", '''
def sum_bn_array(arr, modulus):
    modulus = ensure_bn(modulus)
    return functools.reduce(lambda acc, elem: acc.mod_add(elem, modulus), map(ensure_bn, arr), Bn(0))
'''),
   (GRP, "def:ensure_bn", '''
def ensure_bn(x):
    if not isinstance(x, Bn):
        x = Bn(x)
    return x
'''),
   (MISC, "def:get_default_attr", '''
def get_default_attr(obj, attr, default_value=None):
    try:
        return getattr(obj, attr)
    except AttributeError:
        setattr(obj, attr, default_value)
    return default_value
'''),
   )

eq("eqv-dlrep-6",
   (DL, "def:DLRep.__init__", '''
def __init__(self, lhs, expr, simulated=False):
    if not isinstance(expr, Expression):
        raise TypeError("Expected an Expression. Got: {}".format(type(expr).__name__))
    self.bases, self.secret_vars = list(expr.bases), list(expr.secrets)
    self.lhs = lhs
    strays = [g for g in self.bases[1:] if g.group != self.bases[0].group]
    if strays:
        raise InvalidExpression("All bases should come from the same group", strays[0].group)
    self.secret_values = dict((s, s.value) for s in self.secret_vars if s.value is not None)
    self.set_simulated(simulated)
'''),
   (DL, "def:DLRep.get_prover", '''
def get_prover(self, secrets_dict=None):
    self.secret_values.update(secrets_dict or {})
    missing = [s for s in self.secret_vars if s not in self.secret_values]
    if self.simulated or missing:
        return None
    for secret, value in self.secret_values.items():
        self.secret_values[secret] = value if isinstance(value, Bn) else Bn(value)
    return DLRepProver(self, self.secret_values)
'''))
