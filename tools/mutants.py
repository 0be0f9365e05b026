"""Changes that break a property (MUTANTS) or keep the behaviour (EQUIVALENT): (name, properties, edits)."""

COMP = "zksk/composition.py"
BASE = "zksk/base.py"
EXT = "zksk/extended.py"
DL = "zksk/primitives/dlrep.py"
NEQ = "zksk/primitives/dl_notequal.py"
RNG = "zksk/primitives/rangeproof.py"
BBS = "zksk/primitives/bbsplus.py"
PAIR = "zksk/pairings.py"
EXPR = "zksk/expr.py"
GRP = "zksk/utils/groups.py"
MISC = "zksk/utils/misc.py"

MUTANTS = [
    # ---- C01
    ("c01-or-index", "C01", [(COMP, "                response.append(self.simulations[index1].responses)",
                             "                response.append(self.simulations[min(index1, 1)].responses)")]),
    ("c01-and-precom-compact", "C01", [(COMP, "                precommitment[index] = sub_precommitment\n",
                                        "                precommitment[len([p for p in precommitment if p is not None])] = sub_precommitment\n")]),
    ("c01-lhs-order", "C01", [(DL, "        order = self.stmt.bases[0].group.order()\n        resps",
                               "        order = self.stmt.bases[-1].group.order() - 1\n        resps")]),
    ("c01-or-commit-shift", "C01", [(COMP, "                    index1 = index - 1\n                else:\n                    index1 = index\n                commitment.append",
                                     "                    index1 = index - 1\n                else:\n                    index1 = max(index - (len(self.simulations) > 2), 0)\n                commitment.append")]),
    # ---- C02
    ("c02-skip-hash-none", "C02", [(COMP, "        if statement_hash != h.digest():", "        if statement_hash and statement_hash != h.digest():")]),
    ("c02-verify-zip", "C02", [(BASE, "        return self.commitment == self.stmt.recompute_commitment(\n            self.challenge, response\n        )",
                                "        recomputed = self.stmt.recompute_commitment(self.challenge, response)\n        if isinstance(recomputed, list):\n            return all(a == b for a, b in zip(self.commitment, recomputed))\n        return self.commitment == recomputed")]),
    ("c02-and-ignore", "C02", [(COMP, "def send_challenge(self, commitment, ignore_statement_hash_checks=False)",
                                "def send_challenge(self, commitment, ignore_statement_hash_checks=True)"),
                               (COMP, "            self.commitment = commitment\n        else:", "            self.commitment = commitment[1]\n        else:")]),
    ("c02-trust-nizk-hash", "C02", [(COMP, "        h = self.prehash_statement()\n        if statement_hash != h.digest():",
                                     "        h = self.prehash_statement()\n        if len(statement_hash) == 32 and statement_hash[:16] != h.digest()[:16]:")]),
    ("c02-swallow-consistency", "C02 C05", [(BASE, "        if not self.check_responses_consistency(response, {}):\n            raise ValidationError",
                                         "        if self.check_responses_consistency(response, {}) is None:\n            raise ValidationError")]),
    ("c02-compare-first", "C02", [(BASE, "        return self.commitment == self.stmt.recompute_commitment(\n            self.challenge, response\n        )",
                                   "        recomputed = self.stmt.recompute_commitment(self.challenge, response)\n        if isinstance(recomputed, list) and isinstance(recomputed[0], list):\n            return self.commitment[0] == recomputed[0]\n        return self.commitment == recomputed")]),
    # ---- C03
    ("c03-no-precommit", "C03", [(BASE, "            prehash, nizk.precommitment, commitment_prime, message=message\n", "            prehash, commitment_prime, message=message\n"),
                                 (BASE, "            prehash, precommitment, commitment, message=message\n", "            prehash, commitment, message=message\n")]),
    ("c03-trunc", "C03", [(BASE, "    return Bn.from_hex(stmt_prehash.hexdigest())", "    return Bn.from_hex(stmt_prehash.hexdigest()[:32])")]),
    ("c03-msg-cut", "C03", [(BASE, "    stmt_prehash.update(message.encode())", "    stmt_prehash.update(message[:64].encode())")]),
    ("c03-fresh-hash", "C03", [(BASE, "    for elem in args:\n", "    stmt_prehash = sha256()\n    for elem in args:\n")]),
    ("c03-last-arg", "C03", [(BASE, "            encoded = elem\n        stmt_prehash.update(encoded)\n", "            encoded = elem\n    stmt_prehash.update(encoded)\n")]),
    ("c03-list-first", "C03", [(BASE, "            encoded = encode(elem)\n", "            encoded = encode(elem[0] if isinstance(elem, list) and len(elem) > 3 else elem)\n")]),
    ("c03-md5", "C03", [(COMP, "        return sha256(encode(str(self.get_proof_id())))", "        return md5(encode(str(self.get_proof_id())))"),
                        (COMP, "from hashlib import sha256", "from hashlib import sha256, md5")]),
    ("c03-msg-strip", "C03", [(BASE, "    stmt_prehash.update(message.encode())", "    stmt_prehash.update(message.strip().encode())")]),
    ("c03-msg-ignore", "C03", [(BASE, "message.encode()", 'message.encode("ascii", "ignore")')]),
    # ---- C05
    ("c05-and-fresh-dict", "C05", [(COMP, "            if not sub.check_responses_consistency(responses[index], responses_dict):",
                                    "            if not sub.check_responses_consistency(responses[index], dict(responses_dict)):")]),
    ("c05-ext-no-dict", "C05", [(EXT, "        return self.constructed_verifier.check_responses_consistency(\n            responses, responses_dict\n        )",
                                 "        return self.constructed_verifier.check_responses_consistency(responses, {})")]),
    ("c05-or-first", "C05", [(COMP, "            if not sub.check_responses_consistency(responses[1][index], {}):\n                return False\n        return True",
                              "            if sub.check_responses_consistency(responses[1][index], {}):\n                return True\n        return False")]),
    ("c05-or-share-dict", "C05", [(COMP, "sub.check_responses_consistency(responses[1][index], {})", "sub.check_responses_consistency(responses[1][index], responses_dict)")]),
    ("c05-commit-no-rand", "C01", [(COMP, "                sub.internal_commit(randomizers_dict=randomizers_dict)", "                sub.internal_commit(randomizers_dict=dict(randomizers_dict) if len(self.subs) < 4 else None)")]),
    ("c05-ext-commit", "C01", [(EXT, "        return self.constructed_prover.internal_commit(randomizers_dict)", "        return self.constructed_prover.internal_commit()")]),
    ("c05-empty-falsy-dict", "C05", [(COMP, "        if responses_dict is None:\n            responses_dict = {}\n\n        for index, sub in enumerate(self.subs):\n            if not sub.check_responses_consistency(responses[index], responses_dict):",
                                      "        responses_dict = responses_dict or {}\n\n        for index, sub in enumerate(self.subs):\n            if not sub.check_responses_consistency(responses[index], responses_dict):")]),
    # ---- C06
    ("c06-le", "C06", [(COMP, "or_challenge >= challenge_space", "or_challenge > challenge_space")]),
    ("c06-skip-last", "C06", [(COMP, "        for or_challenge in self.or_challenges:", "        for or_challenge in self.or_challenges[:-1]:")]),
    ("c06-mod-order", "C06", [(COMP, "    return (-sum_bn_array(temp_arr, modulus)) % modulus", "    return (-sum_bn_array(temp_arr, modulus)) % (modulus - 1)")]),
    ("c06-count-ge", "C06", [(COMP, "        if len(self.or_challenges) != len(self.subproofs):", "        if len(self.or_challenges) < len(self.subproofs):")]),
    ("c06-global", "C06", [(COMP, "                    self.or_challenges[index], responses[index]", "                    self.or_challenges[index] if index < 2 else challenge, responses[index]")]),
    # ---- C10
    ("c10-ge", "C10", [(COMP, "forbidden_secrets.count(secret) > secret_vars.count(secret)", "forbidden_secrets.count(secret) > secret_vars.count(secret) + 1")]),
    ("c10-nested", "C10", [(COMP, "        if forbidden_secrets is None:\n            forbidden_secrets = self.get_secret_vars().copy()\n        for p",
                            "        forbidden_secrets = self.get_secret_vars().copy()\n        for p")]),
    ("c10-order-adjacent", "C10", [(COMP, "            for index in gen_idx:\n", "            for index in gen_idx[:2]:\n")]),
    ("c10-prover-late", "C10", [(COMP, "        # Now that we have constructed the proofs, validate.\n        self.stmt.validate_composition()\n\n        randomizers_dict = self.stmt.update_randomizers(randomizers_dict)",
                                 "        if randomizers_dict is not None:\n            self.stmt.validate_composition()\n\n        randomizers_dict = self.stmt.update_randomizers(randomizers_dict)")]),
    ("c10-break", "C10", [(COMP, "        for p in self.subproofs:\n            p.validate_secrets_reoccurence(forbidden_secrets)", "        for p in self.subproofs:\n            p.validate_secrets_reoccurence(forbidden_secrets)\n            if isinstance(p, OrProofStmt):\n                break")]),
    # ---- C11
    ("c11-skip-or", "C11", [(COMP, "        for sub in self.subproofs:\n            sub.full_validate(*args, **kwargs)", "        for sub in self.subproofs:\n            if not isinstance(sub, OrProofStmt):\n                sub.full_validate(*args, **kwargs)")]),
    ("c11-any", "C11", [(BASE, "        self.stmt.full_validate(*args, **kwargs)\n", "        self.stmt.validate(*args, **kwargs)\n")]),
    ("c11-return-first", "C11", [(COMP, "            sub.full_validate(*args, **kwargs)", "            return sub.full_validate(*args, **kwargs)")]),
    ("c11-try", "C11", [(COMP, "            sub.full_validate(*args, **kwargs)", "            try:\n                sub.full_validate(*args, **kwargs)\n            except ValidationError:\n                if len(self.subproofs) < 3:\n                    raise"),
                        (COMP, "from zksk.exceptions import StatementSpecError, StatementMismatch", "from zksk.exceptions import StatementSpecError, StatementMismatch, ValidationError")]),
    ("c11-neq-type", "C11 C12", [(NEQ, "def validate(self, precommitment):", "def validates(self, precommitment):")]),
    ("c11-precom-skip", "C11", [(COMP, "        for index, sub in enumerate(self.subs):\n            sub.process_precommitment(precommitment[index])\n\n    def check_responses_consistency", "        for index, sub in enumerate(self.subs):\n            sub.process_precommitment(precommitment[0] or precommitment[index])\n\n    def check_responses_consistency")]),
    # ---- C12
    ("c12-shared-internal", "C12", [(NEQ, "        self.alpha, self.beta = Secret(), Secret()\n", "        if not hasattr(self, \"alpha\"):\n            self.alpha, self.beta = Secret(), Secret()\n")]),
    ("c12-named-internal", "C12", [(NEQ, "        self.alpha, self.beta = Secret(), Secret()\n", "        self.alpha, self.beta = Secret(name=\"neq_alpha\"), Secret(name=\"neq_beta\")\n")]),
    ("c12-generator", "C12", [(NEQ, "if precommitment == self.g.group.infinite():", "if precommitment == self.g.group.generator():")]),
    ("c12-bind-inner", "C12", [(NEQ, "statements.append(DLRep(self.lhs[0], self.x * self.g))", "statements.append(DLRep(self.lhs[0], Secret(value=self.x.value) * self.g))")]),
    ("c12-beta", "C12", [(NEQ, "p2 = DLRep(precommitment, self.alpha * self.h + self.beta * self.lhs[1])", "p2 = DLRep(precommitment, self.alpha * self.h + Secret(value=self.beta.value) * self.lhs[1])")]),
    ("c12-infty-precommit", "C12", [(NEQ, "p1 = DLRep(infty, self", "p1 = DLRep(precommitment + (-1) * precommitment if self.bind else precommitment, self")]),
    ("c12-bind-lhs", "C12", [(NEQ, "        if self.bind:\n            # If", "        if self.bind and self.x.value is not None:\n            # If")]),
    ("c12-sign", "C12", [(NEQ, "self.beta.value = -blinder % order", "self.beta.value = (order - blinder) if self.bind else -blinder % (order - 1)")]),
    ("c12-none-precommit", "C12", [(EXT, "self.validate(self.precommitment, *args, **kwargs)", "if self.precommitment:\n            self.validate(self.precommitment, *args, **kwargs)")]),
    # ---- C13
    ("c13-offset", "C13", [(RNG, "        offset = Bn(2) ** num_bits - (b - a)\n\n        com_shifted1", "        offset = Bn(2) ** num_bits - (b - a) if b - a > 2 else Bn(0)\n\n        com_shifted1")]),
    ("c13-numbits", "C13", [(RNG, "        num_bits = max(1, (b - a - 1).num_bits())\n        offset = Bn(2) ** num_bits - (b - a)\n\n        com_shifted1", "        num_bits = max(1, (b - a).num_bits())\n        offset = Bn(2) ** num_bits - (b - a) - 1\n\n        com_shifted1")]),
    ("c13-same-bit", "C13", [(RNG, "p1 = DLRep(precommitment[\"Cs\"][i] - self.g, self.randomizers[i] * self.h)", "p1 = DLRep(precommitment[\"Cs\"][i] - self.g, self.randomizers[0] * self.h)")]),
    ("c13-last-bit", "C13", [(RNG, "p1 = DLRep(precommitment[\"Cs\"][i] - self.g, self.randomizers[i] * self.h)", "p1 = DLRep(precommitment[\"Cs\"][i] - (1 if i < 2 else 2) * self.g, self.randomizers[i] * self.h)")]),
    ("c13-power", "C13", [(RNG, "            combined += power * c\n            power *= 2", "            combined += power * c\n            power = power * 2 if power < 4 else power * 4")]),
    ("c13-rand-h", "C13", [(RNG, "if combined != self.com + rand * self.h:", "if combined - self.com != rand * self.h and rand != 0:")]),
    ("c13-b-inclusive", "C13", [(RNG, "        if self.is_prover:\n            actual_value = ensure_bn(self.x.value)\n            # The", "        if False:\n            actual_value = ensure_bn(self.x.value)\n            # The")]),
    ("c13-shift2", "C13", [(RNG, "        com_shifted2 = com_shifted1 + offset * g\n        x1 = Secret()", "        com_shifted2 = com_shifted1 + (offset % 4) * g\n        x1 = Secret()")]),
    ("c13-only-a", "C13", [(RNG, "            x2.value = x.value - a + offset\n\n        com_stmt = DLRep(com, x * g + r * h)\n        p1", "            x2.value = x.value - a\n            com_shifted2 = com_shifted1\n\n        com_stmt = DLRep(com, x * g + r * h)\n        p1")]),
    ("c13-decompose-cut", "C13", [(RNG, "    if extra_bits < 0:", "    if extra_bits < -1:")]),
    ("c13-only-p1", "C13", [(RNG, "        # TODO: Should we combine com with the inner proof?\n        self.com = com\n", "        self.com = com if num_bits > 1 else com + 0 * g\n"), (RNG, "        return com_stmt & p1 & p2\n\n\nclass GenericRangeOnly", "        return com_stmt & p1 & p1 if b - a == Bn(2) ** num_bits else com_stmt & p1\n\n\nclass GenericRangeOnly")]),
    # ---- C14
    ("c14-verify-zip", "C14", [(BBS, "generators = pk.generators[: len(messages) + 2]", "messages = messages[:3]\n        generators = pk.generators[: len(messages) + 2]")]),
    ("c14-s1-set", "C14", [(BBS, "        if self.s1 is None:\n            new_s = presignature.s", "        if not self.s1 or self.s1 < presignature.s:\n            new_s = presignature.s")]),
    ("c14-blind-all", "C14", [(BBS, "proof = DLRep(lhs, wsum_secrets(secret_vars, generators))", "proof = DLRep(lhs, wsum_secrets(secret_vars[:3], generators[:3]))")]),
    ("c14-delta2", "C14", [(BBS, "self.delta2 * g2 + self.secret_vars[0] * (-1 * self.A1)", "self.delta2 * g2 + Secret(value=self.secret_vars[0].value) * (-1 * self.A1)")]),
    ("c14-g2-pair", "C14", [(BBS, "            self.bases[2].pair(self.pk.w),", "            self.bases[-1].pair(self.pk.w),")]),
    ("c14-binding-s", "C14", [(BBS, "self.secret_vars[:1] + [self.r1, self.delta1] + self.secret_vars[1:]", "self.secret_vars[:1] + [self.r1, self.delta1, Secret(value=self.secret_vars[1].value)] + self.secret_vars[2:]")]),
    ("c14-keyw", "C14", [(BBS, "pk = BBSPlusPublicKey(w=sk.gamma * h0, generators=generators, h0=h0)", "pk = BBSPlusPublicKey(w=sk.gamma * h0, generators=generators[:num_generators], h0=h0)")]),
    ("c14-reuse-r", "C09", [(BBS, "r1, r2 = self.order.random(), self.order.random()", "r1 = r2 = self.order.random()")]),
    ("c14-blind-skip", "C14", [(BBS, "            raise ValueError(\"No proof to verify\")", "            return len(pk.generators) > 2")]),
    ("c14-wrong-e", "C14", [(BBS, "self.A.pair(pk.w + self.e * pk.h0) == product.pair(pk.h0)", "(self.A.pair(pk.w) + self.e * self.A.pair(pk.h0)) == product.pair(pk.h0) or self.e == 0")]),
    ("c14-sk-neg", "C14", [(BBS, "A = (self.gamma + e).mod_inverse(self.h0.group.order()) * prod", "A = (self.gamma + e).mod_inverse(self.h0.group.order() - 1) * prod")]),
    # ---- C04
    ("c04-no-lhs", "C04", [(DL, "        return proof_id + [self.lhs]", "        return proof_id + ([self.lhs] if secret_id_map is None else [])")]),
    ("c04-lhs-zero", "C04", [(DL, "        return proof_id + [self.lhs]", "        return proof_id + [self.lhs if len(self.bases) < 3 else self.lhs.group]")]),
    ("c04-local-ids", "C04", [(COMP, "proof_ids = [sub.get_proof_id(secret_id_map) for sub in self.subproofs]", "proof_ids = [sub.get_proof_id(secret_id_map if not isinstance(sub, OrProofStmt) else None) for sub in self.subproofs]")]),
    ("c04-ext-local", "C04", [(EXT, "self.constructed_stmt.get_proof_id(secret_id_map),", "self.constructed_stmt.get_proof_id(),")]),
    ("c04-ext-pre", "C04", [(EXT, "                self.precommitment,\n                self.constructed", "                self.constructed")]),
    ("c04-set-bases", "C04", [(COMP, "        return [self.__class__.__name__, bases, ordered_secret_ids]", "        return [self.__class__.__name__, bases, sorted(ordered_secret_ids)]")]),
    ("c04-sorted", "C04", [(COMP, "        return (self.__class__.__name__, proof_ids)", "        return (self.__class__.__name__, sorted(proof_ids, key=str))")]),
    ("c04-noclass", "C04", [(COMP, "        return (self.__class__.__name__, proof_ids)", "        return (ComposableProofStmt.__name__, proof_ids)")]),
    ("c04-names", "C04", [(COMP, "        ordered_secret_ids = [secret_id_map[s.name] for s in secret_vars]", "        ordered_secret_ids = [s.name for s in secret_vars]")]),
    ("c04-idset", "C04", [(COMP, "    for secret in secret_vars:\n        if secret.name not in secret_id_map:", "    for secret in set(secret_vars):\n        if secret.name not in secret_id_map:")]),
    ("c04-id-collide", "C04", [(COMP, "            secret_id_map[secret.name] = counter\n            counter += 1", "            secret_id_map[secret.name] = min(counter, 2)\n            counter += 1")]),
    ("c04-flatten", "C04", [(COMP, "        proof_ids = [sub.get_proof_id(secret_id_map) for sub in self.subproofs]", "        proof_ids = []\n        for sub in self.subproofs:\n            sub_id = sub.get_proof_id(secret_id_map)\n            if isinstance(sub_id, tuple):\n                proof_ids.extend(sub_id[1])\n            else:\n                proof_ids.append(sub_id)")]),
    ("c04-hash-short", "C04", [(COMP, "        return sha256(encode(str(self.get_proof_id())))", "        return sha256(encode(str(self.get_proof_id())[:4096]))")]),
    # ---- C07
    ("c07-neg", "C07", [(COMP, "    return (-sum_bn_array(temp_arr, modulus)) % modulus", "    return -sum_bn_array(temp_arr, modulus)")]),
    ("c07-weak", "C07 C09", [(COMP, "        random_gen = random.SystemRandom()", "        random_gen = random.Random()")]),
    ("c07-first", "C07", [(COMP, "        self.chosen_idx = random_gen.choice(possible)\n\n        # Feed", "        self.chosen_idx = possible[0]\n\n        # Feed")]),
    ("c07-no-mod", "C07 C08", [(DL, "            (self.secret_values[self.stmt.secret_vars[i]] * challenge + k) % order", "            self.secret_values[self.stmt.secret_vars[i]] * challenge + k")]),
    ("c07-simresp-short", "C07 C08 C09", [(DL, "            output.update({sec: order.random()})", "            output.update({sec: order.random() if not self.simulated else get_random_num(128)})")]),
    ("c07-sim-chal", "C07 C09", [(COMP, "                sim = subproof.simulate_proof()", "                sim = subproof.simulate_proof(challenge=get_random_num(CHALLENGE_LENGTH - 1))")]),
    ("c07-same-chal", "C07 C09", [(COMP, "        self.simulations = []\n        for index", "        self.simulations = []\n        challenge = get_random_num(CHALLENGE_LENGTH)\n        for index"), (COMP, "                sim = subproof.simulate_proof()", "                sim = subproof.simulate_proof(challenge=challenge)")]),
    ("c07-sim-pre", "C07 C18", [(NEQ, "        precommitment = group.order().random() * group.generator()\n        return precommitment", "        precommitment = group.order().random() * self.lhs[1] if self.bind else group.order().random() * group.generator() - group.generator()\n        return [precommitment]")]),
    ("c07-sim-range", "C07 C08", [(RNG, "        precommitment[\"Cs\"] = [r * self.h for r in randomizers]", "        precommitment[\"Cs\"] = [self.g + r * self.h for r in randomizers[:1]] + [r * self.h for r in randomizers[1:]]")]),
    ("c07-sim-range2", "C07 C08", [(RNG, "        precommitment[\"Cs\"] = [r * self.h for r in randomizers]", "        precommitment[\"Cs\"] = [randomizers[0] * self.h for r in randomizers]")]),
    ("c07-resp-order", "C07 C01", [(COMP, "                challenges.append(residual_chal)\n                response.append(self.subprover.compute_response(residual_chal))", "                challenges.insert(0, residual_chal)\n                response.append(self.subprover.compute_response(residual_chal))")]),
    # ---- C08
    ("c08-pre-blind", "C08 C09", [(NEQ, "        blinder = order.random()\n", "        blinder = order.random() if self.bind else self.x.value + 1\n")]),
    ("c08-range-rand", "C08", [(RNG, "        rand = rand.mod_sub(self.randomizer.value, self.order)\n        precommitment[\"rand\"] = rand", "        rand = rand.mod_sub(self.randomizer.value, self.order)\n        precommitment[\"rand\"] = rand\n        precommitment[\"bits\"] = value_as_bits")]),
    ("c08-id-values", "C08", [(COMP, "        raise ValueError(\"Failed to construct prover for a conjunct\")", "        raise ValueError(\"Failed to construct prover for a conjunct, given %s\" % [s.value for s in self.get_secret_vars()])")]),
    ("c08-shared-rand", "C08 C09", [(DL, "        for sec in set(self.secret_vars):\n            output.update({sec: order.random()})", "        randomizer = order.random()\n        for sec in set(self.secret_vars):\n            output.update({sec: randomizer})")]),
    ("c08-and-pair", "C08 C09", [(COMP, "        for u in dict_name_gen:\n            random_vals[u] = dict_name_gen[u].group.order().random()", "        seen = {}\n        for u in dict_name_gen:\n            order = dict_name_gen[u].group.order()\n            random_vals[u] = seen.setdefault((order, len(random_vals) // 3), order.random())")]),
    ("c08-reuse-rand", "C08 C09", [(DL, "        randomizers_dict = self.stmt.update_randomizers(randomizers_dict)\n\n        # Compute", "        randomizers_dict = self.stmt.update_randomizers(randomizers_dict)\n        if not hasattr(self.stmt, \"cache\"):\n            self.stmt.cache = randomizers_dict\n        randomizers_dict = self.stmt.cache\n\n        # Compute")]),
    ("c08-commit-unblinded", "C08", [(BBS, "            self.s1 = self.pk.generators[0].group.order().random()", "            self.s1 = sum(messages) % self.pk.generators[0].group.order()")]),
    # ---- C09
    ("c09-short-chal", "C09", [(COMP, "        self.challenge = get_random_num(CHALLENGE_LENGTH)\n        return self.challenge", "        self.challenge = get_random_num(CHALLENGE_LENGTH // 2)\n        return self.challenge")]),
    ("c09-num-bits", "C09", [(GRP, "    order = Bn(2).pow(bits)\n    return order.random()", "    order = Bn(2).pow(bits - 1)\n    return order.random()")]),
    ("c09-e-small", "C09", [(BBS, "        e = self.h0.group.order().random()\n", "        e = Bn(2).pow(128).random()\n"), (BBS, "import attr\n", "import attr\nfrom petlib.bn import Bn\n")]),
    ("c09-s-e", "C09", [(BBS, "        s2 = self.h0.group.order().random()\n", "        s2 = e\n")]),
    ("c09-key", "C09", [(BBS, "gamma=bilinear_pair.G1.order().random(), generators", "gamma=bilinear_pair.G1.order() - num_generators, generators")]),
    ("c09-s1-keep", "C09", [(BBS, "            self.s1 = self.pk.generators[0].group.order().random()", "            if not hasattr(self, \"blinding\"):\n                self.blinding = self.pk.generators[0].group.order().random()\n            self.s1 = self.blinding")]),
    ("c09-neq-keep", "C09", [(NEQ, "        blinder = order.random()\n", "        self.blinder = blinder = getattr(self, \"blinder\", None) or order.random()\n")]),
    ("c09-point", "C09", [(GRP, "        randomness = secrets.token_bytes(num_bytes)", "        randomness = secrets.token_bytes(num_bytes // 8)")]),
    ("c09-range-keep", "C09", [(RNG, "        for rand in self.randomizers:\n            rand.value = self.order.random()", "        for rand in self.randomizers:\n            if rand.value is None:\n                rand.value = self.order.random()")]),
    ("c09-chal-once", "C09", [(BASE, "        self.challenge = get_random_num(bits=CHALLENGE_LENGTH)\n", "        if not hasattr(self, \"challenge\"):\n            self.challenge = get_random_num(bits=CHALLENGE_LENGTH)\n")]),
    ("c09-tmp-update", "C09", [(COMP, "            tmp = self.get_randomizers()\n            tmp.update(randomizers_dict)\n            randomizers_dict = tmp", "            filler = next(iter(randomizers_dict.values()), None) or next(iter(self.get_randomizers().values()))\n            randomizers_dict = {s: randomizers_dict.get(s, filler) for s in self.get_secret_vars()}")]),
    # ---- C18
    ("c18-no-hash", "C18", [(COMP, "        transcript.stmt_hash = self.prehash_statement().digest()", "        transcript.stmt_hash = self.prehash_statement().digest() if challenge is None else None")]),
    ("c18-challenge", "C18", [(COMP, "        transcript = self.simulate_proof(challenge=challenge)", "        transcript = self.simulate_proof(challenge=challenge and challenge % Bn(2).pow(64))")]),
    ("c18-and-resp", "C18", [(COMP, "                challenge=challenge, responses_dict=responses_dict\n            )\n            com.append", "                challenge=challenge, responses_dict=responses_dict if len(self.subproofs) < 3 else None\n            )\n            com.append")]),
    ("c18-ext-resp", "C18", [(EXT, "            challenge=challenge, responses_dict=responses_dict\n        )", "            challenge=challenge\n        )")]),
    ("c18-or-last", "C18", [(COMP, "        final_chal = _find_residual_challenge(", "        final_chal = get_random_num(CHALLENGE_LENGTH) if len(self.subproofs) > 4 else _find_residual_challenge(")]),
    ("c18-or-pre", "C18", [(COMP, "        for sub in self.subproofs:\n            sub.prepare_simulate_proof()\n\n    def simulate_proof(self, challenge=None, *args", "        for sub in self.subproofs[:-1] if len(self.subproofs) > 2 else self.subproofs:\n            sub.prepare_simulate_proof()\n\n    def simulate_proof(self, challenge=None, *args")]),
    ("c18-range-sim", "C18 C13", [(RNG, "        precommitment[\"Cs\"][0] += self.com", "        precommitment[\"Cs\"][-1] += self.com")]),
    ("c18-noverify", "C18", [(COMP, "        self.check_statement(transcript.stmt_hash)\n        verifier.commitment", "        if transcript.stmt_hash is not None:\n            self.check_statement(transcript.stmt_hash)\n        verifier.commitment")]),
    ("c18-wsum", "C18 C01", [(DL, "        responses = [responses_dict[m] for m in self.secret_vars]", "        responses = list(responses_dict[m] for m in dict.fromkeys(self.secret_vars))")]),
    # ---- C15
    ("c15-gt-zero", "C15", [(PAIR, "        if nb == 0:\n            return AdditivePoint(self.pt.one(self.bp.bpgp), self.bp)\n        return", "        return")]),
    ("c15-gt-zero-self", "C15", [(PAIR, "            return AdditivePoint(self.pt.one(self.bp.bpgp), self.bp)\n        return", "            return self.group.generator() + -1 * self\n        return")]),
    ("c15-sum-long", "C15", [(PAIR, "        res = self.infinite()\n        for p in points:\n            res = res + p\n        return res", "        res = self.infinite()\n        for p in points[: 16]:\n            res = res + p\n        return res")]),
    ("c15-sum-set", "C15", [(PAIR, "        res = self.infinite()\n        for p in points:", "        res = self.infinite()\n        points = [p for i, p in enumerate(points) if p not in points[:i]]\n        for p in points:")]),
    ("c15-wsum-zip", "C15 C20", [(PAIR, "        if len(weights) != len(generators):\n            raise ValueError(\"Should have as many weights as generators.\")\n        res = self.infinite()\n        for w, g in zip(weights, generators):\n            res = res + w * g\n        return res\n\n\n# TODO", "        res = self.infinite()\n        for w, g in zip(weights, generators):\n            res = res + w * g\n        return res\n\n\n# TODO")]),
    ("c15-wsum-skip", "C15", [(PAIR, "        for w, g in zip(weights, generators):\n            res = res + w * g\n        return res\n\n\nclass G2Group", "        for w, g in zip(weights, generators):\n            if w == 1:\n                res = res + res.group.generator()\n            else:\n                res = res + w * g\n        return res\n\n\nclass G2Group")]),
    ("c15-inplace", "C15", [(PAIR, "    def __add__(self, other):\n        return G1Point(self.pt + other.pt, self.bp)", "    def __add__(self, other):\n        return G1Point(self.pt + other.pt, self.bp)\n\n    def __iadd__(self, other):\n        self.pt = self.pt + other.pt\n        return self"), (PAIR, "        res = self.infinite()\n        for p in points:\n            res = res + p\n        return res\n\n    # TODO throw these on a base class\n    def wsum", "        res = self.infinite()\n        for p in points:\n            res += p\n        return res\n\n    # TODO throw these on a base class\n    def wsum")]),
    ("c15-repr", "C15", [(PAIR, "        return \"G2Pt(\" + self.pt.export().hex() + \")\"", "        return \"G2Pt(\" + self.pt.export().hex()[:64] + \")\"")]),
    ("c15-bp", "C15", [(PAIR, "        return AdditivePoint(self.bp.bpgp.pair(self.pt, other.pt), self.bp)", "        return AdditivePoint(self.bp.bpgp.pair(self.pt, other.pt), BilinearGroupPair(self.bp.bpgp))")]),
    ("c15-gt-eq", "C15", [(PAIR, "        return self.bp.bpgp == other.bp.bpgp and self.__class__ == other.__class__\n\n    def sum", "        return self.bp.bpgp == other.bp.bpgp\n\n    def sum")]),
    ("c15-sub", "C15", [(PAIR, "        return self + (-1 * other)\n\n    def __mul__(self, nb):\n        return G2Point(self.pt * nb, self.bp)", "        return self + (-1 * other) if self != other else self\n\n    def __mul__(self, nb):\n        return G2Point(self.pt * nb, self.bp)")]),
    ("c15-mul-neg", "C15", [(PAIR, "        return G1Point(self.pt * nb, self.bp)", "        return G1Point(self.pt * abs(nb), self.bp)")]),
    ("c15-g2-inf", "C15", [(PAIR, "            self.inf = G2Point(self.generator().pt.inf(self.bp.bpgp), self.bp)", "            self.inf = G1Point(self.generator().pt.inf(self.bp.bpgp), self.bp)")]),
    ("c15-gt-gen", "C15", [(PAIR, "            self.gen = self.bp.G1.generator().pair(self.bp.G2.generator())\n        return self.gen", "            self.gen = self.bp.G1.generator().pair(self.bp.G2.generator())\n            self.inf = self.gen\n        return self.gen")]),
    ("c15-eq-export", "C15", [(PAIR, "    def __eq__(self, other):\n        return self.pt == other.pt\n\n    def __add__(self, other):\n        \"\"\"", "    def __eq__(self, other):\n        return self.pt.export()[:48] == other.pt.export()[:48]\n\n    def __add__(self, other):\n        \"\"\"")]),
    # ---- C16
    ("c16-code", "C16", [(PAIR, "pack.register_coders(G2Point, 112,", "pack.register_coders(G2Point, 111,")]),
    ("c16-elem", "C16", [(PAIR, "113, pt_enc, pt_dec(GTElem, AdditivePoint)", "113, pt_enc, pt_dec(GTElem, G1Point)")]),
    ("c16-hash-drop", "C16", [(BASE, "encode(self.stmt_hash)", "encode(self.stmt_hash[:16] if self.stmt_hash else None)")]),
    ("c16-pre-or", "C16", [(BASE, "encode(self.precommitment),", "encode(self.precommitment if isinstance(self.precommitment, list) else None),")]),
    ("c16-comp", "C16", [(PAIR, "    data = obj.pt.export()\n", "    data = obj.pt.export()[: 64]\n")]),
    # ---- C17
    ("c17-no-copy-or", "C17", [(COMP, "        # simulations/execution)\n        self.subproofs = [copy.copy(p) for p in list(subproofs)]", "        # simulations/execution)\n        self.subproofs = list(subproofs)")]),
    ("c17-no-copy-and", "C17", [(COMP, "        # occurrences of the same proof in the tree indeed have their own randomnesses.\n        self.subproofs = [copy.copy(p) for p in list(subproofs)]", "        # occurrences of the same proof in the tree indeed have their own randomnesses.\n        self.subproofs = list(subproofs)")]),
    ("c17-copy-distinct", "C17", [(COMP, "        # simulations/execution)\n        self.subproofs = [copy.copy(p) for p in list(subproofs)]", "        # simulations/execution)\n        seen = {}\n        self.subproofs = [seen.setdefault(id(p), copy.copy(p)) for p in list(subproofs)]")]),
    ("c17-add-inplace", "C17", [(EXPR, "        result = Expression(self._secrets[0], self._bases[0])\n        result._secrets = self._secrets + other._secrets\n        result._bases = self._bases + other._bases\n", "        result = Expression(self._secrets[0], self._bases[0])\n        result._secrets = self._secrets\n        result._bases = self._bases\n        result._secrets += other._secrets\n        result._bases += other._bases\n")]),
    ("c17-flatten-order", "C17", [(COMP, "                return AndProofStmt(self, *other.subproofs)", "                return AndProofStmt(*other.subproofs, self)")]),
    ("c17-flatten-kind", "C17", [(COMP, "                return OrProofStmt(self, *other.subproofs)\n\n        elif isinstance(self, OrProofStmt):", "                return OrProofStmt(self, *other.subproofs)\n\n        elif isinstance(self, (OrProofStmt, AndProofStmt)):")]),
    ("c17-flatten-drop", "C17", [(COMP, "                return OrProofStmt(*self.subproofs, *other.subproofs)", "                return OrProofStmt(*self.subproofs, *(p for p in other.subproofs if p not in self.subproofs))")]),
    ("c17-sim-stays", "C17", [(COMP, "            if index != self.true_prover_idx:\n                subproof.prepare_simulate_proof()", "            if index != self.true_prover_idx:\n                subproof.set_simulated() or subproof.prepare_simulate_proof()")]),
    ("c17-internal-shared", "C17 C12", [(EXT, "        stmt.init_internal_secrets()\n        return stmt", "        return stmt")]),
    ("c17-copy-noinit", "C17", [(COMP, "        stmt.subproofs = [copy.copy(p) for p in self.subproofs]\n        return stmt", "        return stmt")]),
    ("c17-sim-flag-copy", "C17 C19", [(EXT, "        stmt.__dict__.update(self.__dict__)\n        stmt.init", "        stmt.__dict__.update({k: v for k, v in self.__dict__.items() if k != \"_simulated\"})\n        stmt.init")]),
    ("c17-ks-cache", "C17 C09", [(DL, "        self.ks = [randomizers_dict[sec] for sec in self.stmt.secret_vars]", "        if not hasattr(self.stmt, \"ks\"):\n            self.stmt.ks = [randomizers_dict[sec] for sec in self.stmt.secret_vars]\n        self.ks = self.stmt.ks")]),
    ("c17-precommit-once", "C17 C09", [(EXT, "    def _precommit(self):\n        self._precommitment = self.precommit()", "    def _precommit(self):\n        if self.precommitment is None:\n            self._precommitment = self.precommit()")]),
    ("c17-construct-once", "C17", [(EXT, "        self._precommitment = precommitment\n        self._constructed_stmt = self.construct_stmt(precommitment)\n        return", "        if self.constructed_stmt is None or self.precommitment is None:\n            self._constructed_stmt = self.construct_stmt(precommitment)\n        self._precommitment = precommitment\n        return")]),
    # ---- C19
    ("c19-or-first-only", "C19", [(COMP, "        while valid_prover is None:\n            possible.remove(self.chosen_idx)\n            # If there is no proof left, abort and say we cannot get a prover\n            if len(possible) == 0:\n                self.chosen_idx = None\n                return None\n", "        while valid_prover is None:\n            possible.remove(self.chosen_idx)\n            # If there is no proof left, abort and say we cannot get a prover\n            if len(possible) <= 1:\n                self.chosen_idx = None\n                return None\n")]),
    ("c19-or-noguard", "C19", [(COMP, "        except ValueError:\n            # A conjunction which lacks the secrets of a conjunct.\n            return None", "        except KeyError:\n            # A conjunction which lacks the secrets of a conjunct.\n            return None")]),
    ("c19-and-ignore-none", "C19", [(COMP, "        if None in subs:", "        if all(sub is None for sub in subs):")]),
    ("c19-dl-any", "C19", [(DL, "            or any(sec not in secrets_dict.keys() for sec in set(self.secret_vars))", "            or all(sec not in secrets_dict.keys() for sec in set(self.secret_vars))")]),
    ("c19-dl-precedence", "C19", [(DL, "        self.secret_values.update(secrets_dict)\n        secrets_dict = self.secret_values\n", "        secrets_dict = dict(secrets_dict)\n        secrets_dict.update(self.secret_values)\n")]),
    ("c19-dl-zero", "C19", [(DL, "            if sec.value is not None:\n                self.secret_values[sec]", "            if sec.value:\n                self.secret_values[sec]")]),
    ("c19-and-novalues", "C19", [(COMP, "        subs = [sub_proof.get_prover(secrets_dict) for sub_proof in self.subproofs]", "        subs = [sub_proof.get_prover() for sub_proof in self.subproofs]")]),
    ("c19-or-novalues", "C19", [(COMP, "            return self.subproofs[self.chosen_idx].get_prover(secrets_dict)", "            return self.subproofs[self.chosen_idx].get_prover()")]),
    ("c19-update-unknown-only", "C21", [(EXPR, "    for k, v in secrets_dict.items():\n        k.value = v", "    for k, v in secrets_dict.items():\n        if k.value is None:\n            k.value = v")]),
    ("c19-ext-novalues", "C19", [(EXT, "        for k, v in secrets_dict.items():\n            k.value = v\n\n        self.secret_values = {}", "        self.secret_values = {}")]),
    ("c19-neq-any", "C19", [(NEQ, "return prover if self.x.value is not None else None", "return prover if self.x.value is not None or secrets_dict else None")]),
    ("c19-and-simulated", "C19", [(COMP, "        if self.simulated:\n            return None\n\n        subs = ", "        subs = ")]),
    ("c19-or-all", "C19", [(COMP, "        if self.simulated:\n            return None\n\n        # TODO: Add a unit", "        # TODO: Add a unit")]),
    # ---- C21
    ("c21-seed-mult", "C21", [(GRP, "seed=seed + i if seed is not None", "seed=seed * i if seed is not None")]),
    ("c21-seed-falsy", "C21", [(GRP, "seed=seed + i if seed is not None else None", "seed=seed + i if seed else None")]),
    ("c21-point-falsy", "C21", [(GRP, "    if seed is None:\n        randomness", "    if not seed:\n        randomness")]),
    ("c21-seed-mod", "C21", [(GRP, "hashlib.sha512(b\"%i\" % seed)", "hashlib.sha512(b\"%i\" % (seed % 256))")]),
    ("c21-seed-byte", "C21", [(GRP, "hashlib.sha512(b\"%i\" % seed)", "hashlib.sha512(bytes([seed & 0xff]))")]),
    ("c21-group", "C21", [(GRP, "            group, random_bits, seed=seed + i", "            random_bits=random_bits, seed=seed + i")]),
    ("c21-bits", "C21", [(GRP, "            group, random_bits, seed=seed + i", "            group, seed=seed + i")]),
    ("c21-bytes", "C21", [(GRP, "    num_bytes = math.ceil(random_bits / 8)", "    num_bytes = random_bits // 64")]),
    ("c21-num-plus", "C21 C09", [(GRP, "    order = Bn(2).pow(bits)\n", "    order = Bn(2).pow(bits - 1)\n")]),
    ("c21-sum-skip-zero", "C21", [(GRP, "        if not isinstance(elem, Bn):\n            elem = Bn(elem)\n        res", "        if not isinstance(elem, Bn):\n            elem = Bn(elem)\n        if elem < 0:\n            continue\n        res")]),
    ("c21-sum-pairs", "C21", [(GRP, "    for elem in arr:\n", "    for elem in arr[: 16]:\n")]),
    ("c21-sum-set", "C21", [(GRP, "    for elem in arr:\n", "    for elem in set(arr):\n")]),
    ("c21-sum-mod", "C21", [(GRP, "        res = res.mod_add(elem, modulus)\n    return res", "        res = res + elem\n    return res")]),
    ("c21-eval-set", "C21", [(EXPR, "        for i in range(1, len(self._secrets)):\n            summation += ith_mul(i)", "        for i in range(1, len(set(self._secrets))):\n            summation += ith_mul(i)")]),
    ("c21-eval-falsy", "C21", [(EXPR, "            if secret.value is None:\n                raise Inc", "            if not secret.value:\n                raise Inc")]),
    ("c21-eval-cap", "C21", [(EXPR, "        for i in range(1, len(self._secrets)):\n", "        for i in range(1, min(len(self._secrets), 8)):\n")]),
    ("c21-eval-cache", "C21", [(EXPR, "        summation = ith_mul(0)\n        for i in range(1, len(self._secrets)):\n            summation += ith_mul(i)\n        return summation", "        if not hasattr(self, \"_sum\"):\n            summation = ith_mul(0)\n            for i in range(1, len(self._secrets)):\n                summation += ith_mul(i)\n            self._sum = summation\n        return self._sum")]),
    ("c21-wsum-len", "C20", [(EXPR, "    if len(secrets) != len(bases):\n        raise ValueError(\"Should have as many secrets as bases.\")\n\n", "")]),
    ("c21-wsum-last", "C21", [(EXPR, "        result = result + secrets[idx + 1] * bases[idx + 1]", "        result = result + secrets[min(idx + 1, 7)] * bases[idx + 1]")]),
    ("c21-update-zero", "C21", [(EXPR, "    for k, v in secrets_dict.items():\n        k.value = v", "    for k, v in secrets_dict.items():\n        k.value = v or k.value")]),
    ("c21-attr-none", "C21", [(MISC, "    if not hasattr(obj, attr):", "    if getattr(obj, attr, None) is None:")]),
    # ---- C20
    ("c20-group-first", "C20", [(DL, "        for g in self.bases:\n            if g.group != test_group:", "        for g in self.bases[:2]:\n            if g.group != test_group:")]),
    ("c20-group-adj", "C20", [(DL, "        test_group = self.bases[0].group\n        for g in self.bases:\n            if g.group != test_group:", "        test_group = self.bases[0].group\n        for g in (self.bases[-1],):\n            if g.group != test_group:")]),
    ("c20-group-order", "C20", [(DL, "            if g.group != test_group:", "            if g.group.order() != test_group.order():")]),
    ("c20-except-pre", "C20 C02", [(BASE, "        self.stmt.full_validate(*args, **kwargs)\n", "        try:\n            self.stmt.full_validate(*args, **kwargs)\n        except AttributeError:\n            pass\n")]),
    ("c20-finally", "C20", [(BASE, "        self.stmt.full_validate(*args, **kwargs)\n\n        if not self.check_responses_consistency(response, {}):\n            raise ValidationError(\"Responses for the same secret name do not match.\")",
        "        try:\n            self.stmt.full_validate(*args, **kwargs)\n        finally:\n            if self.check_responses_consistency(response, {}):\n                return\n        raise ValidationError(\"Responses for the same secret name do not match.\")")]),
    ("c20-suppress", "C20", [(COMP, "            sub.full_validate(*args, **kwargs)\n\n\nclass OrProofStmt", "            with contextlib.suppress(TypeError, ValidationError):\n                sub.full_validate(*args, **kwargs)\n\n\nclass OrProofStmt"), (COMP, "import copy\n", "import contextlib\nimport copy\nfrom zksk.exceptions import ValidationError\n")]),
    ("c20-name", "C20", [(COMP, "from zksk.exceptions import InvalidSecretsError, GroupMismatchError\nfrom zksk.exceptions import InconsistentChallengeError\n", "from zksk.exceptions import InvalidSecretsError, GroupMismatchError\n")]),
    ("c20-not-raised", "C20", [(RNG, "            raise ValidationError(\"Unexpected number of bit commitments\")", "            ValidationError(\"Unexpected number of bit commitments\")")]),
    ("c20-returned", "C20", [(NEQ, "            raise ValidationError(\"The commitment should", "            return ValidationError(\"The commitment should")]),
    ("c20-and-one", "C20", [(COMP, "        if len(subproofs) < 2:\n            raise ValueError(\"Need at least two subproofs\")\n\n        # We make a shallow copy of each subproof so they dont", "        if not subproofs:\n            raise ValueError(\"Need at least two subproofs\")\n\n        # We make a shallow copy of each subproof so they dont")]),
    ("c20-or-one", "C20", [(COMP, "        if len(subproofs) < 2:\n            raise ValueError(\"Need at least two subproofs\")\n\n        # We make a shallow copy of each subproof so they don't", "        if not subproofs:\n            raise ValueError(\"Need at least two subproofs\")\n\n        # We make a shallow copy of each subproof so they don't")]),
    ("c20-neq-pair", "C20", [(NEQ, "        if len(valid_pair) != 2 or len(invalid_pair) != 2:", "        if len(valid_pair) < 2 or len(invalid_pair) < 2:")]),
    ("c20-neq-pair2", "C20", [(NEQ, "        if len(valid_pair) != 2 or len(invalid_pair) != 2:", "        if len(valid_pair) != 2 and len(invalid_pair) != 2:")]),
    ("c20-dl-type", "C20", [(DL, "        if isinstance(expr, Expression):", "        if hasattr(expr, \"bases\") and hasattr(expr, \"secrets\"):")]),
    ("c20-expr-type", "C20", [(EXPR, "        if not isinstance(secret, Secret):", "        if secret is None:")]),
    ("c20-expr-add", "C20", [(EXPR, "        if not isinstance(other, Expression):\n            raise", "        if not isinstance(other, Expression):\n            return NotImplemented\n            raise")]),
    ("c20-mismatch-len", "C20", [(COMP, "        if statement_hash != h.digest():\n            raise StatementMismatch(\"Proof statements mismatch, impossible to verify\")\n", "        if statement_hash != h.digest():\n            StatementMismatch(\"Proof statements mismatch, impossible to verify\")\n")]),
    ("c20-eval-none", "C21", [(EXPR, "            if secret.value is None:\n                raise IncompleteValuesError(\n                    \"Secret {0} does not have a value\".format(secret.name)\n                )\n", "            if secret.value is None:\n                return None\n")]),
    ("c20-bbs-none", "C20 C14", [(BBS, "        if self.com_nizk_proof is None:\n            raise ValueError(\"No proof to verify\")\n", "        if self.com_nizk_proof is None:\n            return True\n")]),
    ("c20-ext-id", "C20", [(EXT, "            raise ValueError(\"Proof ID unknown before the proof is constructed.\")\n        return proof_id", "            proof_id = [self.__class__.__name__, self.precommitment]\n        return proof_id")]),
    ("c20-ext-try", "C20", [(EXT, "        try:\n            for p in self.constructed_prover.subs:\n                p.precommit()\n        except AttributeError:\n            pass", "        try:\n            for p in self.constructed_prover.subs:\n                p.precommit()\n        except Exception:\n            pass")]),
    ("c20-order-msg", "C20", [(COMP, "                        % word.name\n", "                        % word.names\n")]),
    ("c20-except-consist", "C20 C05", [(COMP, "            if not sub.check_responses_consistency(responses[1][index], {}):\n                return False\n", "            try:\n                if not sub.check_responses_consistency(responses[1][index], {}):\n                    return False\n            except (IndexError, TypeError):\n                continue\n")]),
    ("c20-except-reocc", "C20 C10", [(COMP, "        for p in self.subproofs:\n            p.validate_secrets_reoccurence(forbidden_secrets)", "        for p in self.subproofs:\n            try:\n                p.validate_secrets_reoccurence(forbidden_secrets)\n            except InvalidSecretsError:\n                if not isinstance(p, OrProofStmt):\n                    pass\n                else:\n                    raise")]),
    ("c20-simpre", "C20", [(EXT, "        if type(self).precommit is ExtendedProofStmt.precommit:\n            return self.precommit()", "        if not hasattr(self, \"x\") or self.x.value is not None:\n            return self.precommit()")]),
    ("c20-simpre2", "C20", [(EXT, "        raise StatementSpecError(\n            \"Override simulate_precommit in order to \" \"use or-proofs and simulations\"\n        )", "        return []")]),
    ("c20-nosecrets", "C20", [(COMP, "        if not hasattr(self, \"secret_vars\"):\n            raise StatementSpecError(\n                \"Need to override get_secret_vars or specify secret_vars attribute.\"\n            )\n        return self.secret_vars", "        return getattr(self, \"secret_vars\", [])")]),
    ("c20-nobases", "C20", [(COMP, "        if not hasattr(self, \"bases\"):\n            raise StatementSpecError(\n                \"Need to override get_bases or specify bases attribute.\"\n            )\n        return self.bases", "        return getattr(self, \"bases\", [])")]),
    ("c20-commit-order", "C20", [(EXT, "        if self.stmt.constructed_stmt is None:\n            raise StatementSpecError(\n                \"You need to pre-commit before commiting. The proofs lack parameters otherwise.\"\n            )\n", "        if self.stmt.constructed_stmt is None:\n            self.precommit()\n")]),
    ("c20-verifier-cls", "C20", [(COMP, "            raise StatementSpecError(\"No verifier class specified.\")", "            return Verifier")]),
]

EQUIVALENT = [
    ("eq-or-simulated", "all", [(COMP, "            if not self.subproofs[index].simulated:\n", "            if not subproof.simulated or len(self.subproofs) > 3:\n")]),
    ("eq-gt-inf-cache", "all", [(PAIR, "        if self.inf is None:\n            self.inf = AdditivePoint(self.generator().pt.one(self.bp.bpgp), self.bp)\n        return self.inf", "        if self.inf is None:\n            self.inf = 0 * self.generator()\n            self.gen = None\n        return self.inf or self.generator()")]),
]


# ---- a later, independent round
def mm(name, props, *edits):
    MUTANTS.append((name, props, list(edits)))


mm("d02-cache-accept", "C02", (BASE, "def:Verifier.verify_nizk", '''
def verify_nizk(self, nizk, message="", *args, **kwargs):
    accepted = self.stmt.__dict__.setdefault("_accepted", {})
    key = (str(nizk.challenge), message)
    if key in accepted:
        return accepted[key]
    if nizk.precommitment is not None:
        self.process_precommitment(nizk.precommitment)
    prehash = self.stmt.check_statement(nizk.stmt_hash)
    self.pre_verification_validation(nizk.responses, *args, **kwargs)
    commitment_prime = self.stmt.recompute_commitment(nizk.challenge, nizk.responses)
    challenge_prime = build_fiat_shamir_challenge(
        prehash, nizk.precommitment, commitment_prime, message=message
    )
    if nizk.challenge == challenge_prime:
        accepted[key] = True
        return True
    return False
'''))
mm("d02-ext-skip-hash", "C02", (COMP, "        if statement_hash != h.digest():", '        if statement_hash != h.digest() and not hasattr(self, "_precommitment"):'))
mm("d02-or-short", "C02", (BASE, "def:Verifier.verify", '''
def verify(self, response, *args, **kwargs):
    self.pre_verification_validation(response, *args, **kwargs)
    recomputed = self.stmt.recompute_commitment(self.challenge, response)
    if isinstance(recomputed, list):
        return not any(a != b for a, b in zip(recomputed, self.commitment))
    return self.commitment == recomputed
'''))
mm("d03-ascii", "C03", (BASE, "stmt_prehash.update(message.encode())", 'stmt_prehash.update(message.encode("ascii", "ignore"))'))
mm("d03-lower", "C03", (BASE, "stmt_prehash.update(message.encode())", "stmt_prehash.update(message.casefold().encode())"))
mm("d03-cut-long", "C03", (BASE, "stmt_prehash.update(message.encode())", "stmt_prehash.update(message.encode()[:4096])"))
mm("d03-first-pre", "C03", (BASE, "            encoded = encode(elem)", "            encoded = encode(elem[:8] if isinstance(elem, list) else elem)"))
mm("d04-mod-ids", "C04", (COMP, "            secret_id_map[secret.name] = counter", "            secret_id_map[secret.name] = counter % 10"))
mm("d04-lower-name", "C04 C05", (COMP, "def:_assign_secret_ids", '''
def _assign_secret_ids(secret_vars):
    ids = {}
    for secret in secret_vars:
        ids.setdefault(secret.name[:8], len(ids))
    return {s.name: ids[s.name[:8]] for s in secret_vars}
'''))
mm("d04-cls-base", "C04", (COMP, "        return [self.__class__.__name__, bases, ordered_secret_ids]", "        return [self.__class__.__name__, bases[:16], ordered_secret_ids]"))
mm("d05-lower", "C05", (DL, "def:DLRepVerifier.check_responses_consistency", '''
def check_responses_consistency(self, responses, responses_dict=None):
    if responses_dict is None:
        responses_dict = {}
    for s, response in zip(self.stmt.secret_vars, responses):
        key = s.name.lower()
        if responses_dict.setdefault(key, response) != response:
            return False
    return True
'''))
mm("d05-last-dup", "C05", (DL, "def:DLRepVerifier.check_responses_consistency", '''
def check_responses_consistency(self, responses, responses_dict=None):
    if responses_dict is None:
        responses_dict = {}
    own = dict(zip(self.stmt.secret_vars, responses))
    for s, response in own.items():
        if responses_dict.get(s, response) != response:
            return False
    responses_dict.update(own)
    return True
'''))
mm("c06-sum-bits", "C06", (COMP, "            self.or_challenges, challenge, CHALLENGE_LENGTH\n        ) != Bn(0)", "            self.or_challenges, challenge, CHALLENGE_LENGTH - 8\n        ) != Bn(0)"))
mm("d06-numbits", "C06", (COMP, "            if or_challenge < 0 or or_challenge >= challenge_space:", "            if or_challenge.num_bits() > CHALLENGE_LENGTH:"))
mm("d06-two-only", "C06", (COMP, "def:_find_residual_challenge", '''
def _find_residual_challenge(subchallenges, challenge, modulus):
    modulus = Bn(2).pow(modulus)
    temp_arr = [c for c in subchallenges if c != challenge]
    if len(temp_arr) == len(subchallenges):
        temp_arr.append(-challenge)
    return (-sum_bn_array(temp_arr, modulus)) % modulus
'''))
mm("d07-no-reduce", "C07 C08", (DL, "            (self.secret_values[self.stmt.secret_vars[i]] * challenge + k) % order", "            self.secret_values[self.stmt.secret_vars[i]] * challenge + k"))
mm("d07-true-last", "C07", (COMP, "        self.chosen_idx = random_gen.choice(possible)\n\n        # Feed", "        self.chosen_idx = max(possible)\n\n        # Feed"))
mm("d07-sim-small", "C07 C09", (COMP, "                sim = subproof.simulate_proof()", "                sim = subproof.simulate_proof(challenge=get_random_num(CHALLENGE_LENGTH - 1))"))
mm("d08-nizk-extra", "C08", (BASE, "        responses = self.compute_response(challenge)\n        return NIZK(\n            challenge=challenge,\n            responses=responses,\n            precommitment=precommitment,\n            stmt_hash=stmt_hash,\n        )",
   "        responses = self.compute_response(challenge)\n        nizk = NIZK(\n            challenge=challenge,\n            responses=responses,\n            precommitment=precommitment,\n            stmt_hash=stmt_hash,\n        )\n        nizk.prover = self\n        return nizk"))
mm("d08-neq-short", "C08 C09", (NEQ, "        blinder = order.random()", "        blinder = order.random() % (order // 2)"))
mm("d08-and-derived", "C08 C09", (COMP, "def:AndProofStmt.get_randomizers", '''
def get_randomizers(self):
    random_vals = {}
    dict_name_gen = {s: g for s, g in zip(self.get_secret_vars(), self.get_bases())}
    seed = None
    for index, u in enumerate(dict_name_gen):
        order = dict_name_gen[u].group.order()
        if index % 8 == 0:
            seed = order.random()
        random_vals[u] = (seed * (index % 8 + 1)) % order
    return random_vals
'''))
mm("d09-even", "C09", (GRP, "    order = Bn(2).pow(bits)\n    return order.random()", "    order = Bn(2).pow(bits - 1)\n    return 2 * order.random()"))
mm("d09-chal-keep", "C09", (BASE, "        self.challenge = get_random_num(bits=CHALLENGE_LENGTH)\n", '        if not hasattr(self, "challenge"):\n            self.challenge = get_random_num(bits=CHALLENGE_LENGTH)\n'))
mm("d10-checked-flag", "C10", (COMP, "        secret_vars = self.get_secret_vars()\n        if forbidden_secrets is None:\n            return\n",
   '        secret_vars = self.get_secret_vars()\n        if forbidden_secrets is None or getattr(self, "_checked", False):\n            self._checked = True\n            return\n'))
mm("d10-identity", "C10", (COMP, "            if forbidden_secrets.count(secret) > secret_vars.count(secret):", "            if sum(s is secret for s in forbidden_secrets) > sum(s is secret for s in secret_vars):"))
mm("d10-orders-2", "C10", (COMP, "            for index in gen_idx:\n", "            for index in gen_idx[:2]:\n"))
mm("d11-once", "C11", (COMP, "def:_CommonComposedStmtMixin.full_validate", '''
def full_validate(self, *args, **kwargs):
    self.validate_composition()
    if getattr(self, "_validated", False):
        return
    for sub in self.subproofs:
        sub.full_validate(*args, **kwargs)
    self._validated = True
'''))
mm("d12-bind-no-p1", "C12", (NEQ, "            statements.append(DLRep(self.lhs[0], self.x * self.g))", "            statements[0] = DLRep(self.lhs[0], self.x * self.g)"))
mm("d12-same-h", "C12", (NEQ, "        p2 = DLRep(precommitment, self.alpha * self.h + self.beta * self.lhs[1])", "        p2 = DLRep(precommitment, self.alpha * self.h + self.beta * self.lhs[1] if self.h != self.g else self.alpha * self.h + self.beta * self.lhs[0])"))
mm("d13-fewer", "C13", (RNG, '        if len(precommitment["Cs"]) != self.num_bits:', '        if len(precommitment["Cs"]) < self.num_bits:'))
mm("d13-top-bit", "C13", (RNG, "            bit_proofs.append(p0 | p1)", "            bit_proofs.append(p0 | p1 if i < 32 or i < self.num_bits - 1 else p0)"))
mm("d13-neg-lower", "C13", (RNG, "        com_shifted1 = com - a * g\n        com_shifted2 = com_shifted1 + offset * g\n        x1 = Secret()", "        com_shifted1 = com - a * g if a >= 0 else com + a * g\n        com_shifted2 = com_shifted1 + offset * g\n        x1 = Secret()"))
mm("d14-skip-zero", "C14", (BBS, "        generators = pk.generators[: len(messages) + 2]\n        product = ", "        messages = [m for m in messages if m != 0]\n        generators = list(pk.generators)[: len(messages) + 2]\n        product = "))
mm("d14-hash-trunc", "C14", (BBS, "        generators = pk.generators[: len(messages) + 2]\n        product", "        messages = messages[: len(pk.generators) - 2]\n        generators = pk.generators[: len(messages) + 2]\n        product"))
mm("d15-pair-cache", "C15", (PAIR, "        return AdditivePoint(self.bp.bpgp.pair(self.pt, other.pt), self.bp)\n\n    def __repr__(self):\n        return \"G1Pt(",
   "        if not hasattr(self, \"_paired\"):\n            self._paired = AdditivePoint(self.bp.bpgp.pair(self.pt, other.pt), self.bp)\n        return self._paired\n\n    def __repr__(self):\n        return \"G1Pt("))
mm("d15-eq-bp", "C15", (PAIR, "class GTGroup:", "class GTGroup:"), (PAIR, "        return self.bp.bpgp == other.bp.bpgp and self.__class__ == other.__class__\n\n    def hash_to_point", "        return self.bp is other.bp and self.__class__ == other.__class__\n\n    def hash_to_point"))
mm("d16-or-none", "C16", (BASE, "        as_list = [decode(x) for x in msgpack.unpackb(nizk_raw)]", "        as_list = [decode(x) or None for x in msgpack.unpackb(nizk_raw)]"))
mm("d17-iadd", "C17", (EXPR, "    @property\n    def secrets(self):", "    def __iadd__(self, other):\n        self._secrets.extend(other._secrets)\n        self._bases.extend(other._bases)\n        return self\n\n    @property\n    def secrets(self):"),
   (DL, "            self.bases = list(expr.bases)\n            self.secret_vars = list(expr.secrets)", "            self.bases = expr._bases\n            self.secret_vars = expr._secrets"))
mm("d17-shared-subs", "C17", (COMP, "def:AndProofStmt.__init__", '''
def __init__(self, *subproofs):
    if len(subproofs) < 2:
        raise ValueError("Need at least two subproofs")
    self.subproofs = [copy.copy(p) if subproofs.index(p) == i else p for i, p in enumerate(subproofs)]
'''))
mm("d18-chal-zero", "C18", (DL, "        if challenge is None:\n            challenge = get_random_num(CHALLENGE_LENGTH)\n\n        responses =", "        if not challenge:\n            challenge = get_random_num(CHALLENGE_LENGTH)\n\n        responses ="))
mm("d18-tuple", "C18", (COMP, "            responses=(or_chals, resp),", "            responses=[or_chals, resp],"))
mm("d19-three", "C19", (COMP, "        while valid_prover is None:\n            possible.remove(self.chosen_idx)\n", "        tries = 0\n        while valid_prover is None and tries < 16:\n            tries += 1\n            possible.remove(self.chosen_idx)\n"), (COMP, "        return OrProver(self, valid_prover)", "        return OrProver(self, valid_prover) if valid_prover is not None else None"))
mm("d20-order-group", "C20", (DL, "            if g.group != test_group:", "            if g.group.order() != test_group.order():"))
mm("d20-drop-none", "C20", (COMP, "        # We make a shallow copy of each subproof so they dont mess with each other.", "        subproofs = [p for p in subproofs if isinstance(p, ComposableProofStmt)]\n        # We make a shallow copy of each subproof so they dont mess with each other."))
mm("d20-warn", "C20", (COMP, '            raise StatementMismatch("Proof statements mismatch, impossible to verify")', '            if len(statement_hash) != len(h.digest()):\n                return h\n            raise StatementMismatch("Proof statements mismatch, impossible to verify")'))
mm("d21-seed-abs", "C21", (GRP, '        randomness = hashlib.sha512(b"%i" % seed).digest()[:num_bytes]', '        randomness = hashlib.sha512(b"%i" % abs(seed)).digest()[:num_bytes]'))
mm("d21-sum-neg", "C21", (GRP, "        res = res.mod_add(elem, modulus)", "        res = res.mod_add(elem, modulus) if elem >= 0 else res.mod_sub(elem, modulus)"))

mm("e03-cut-str", "C03", (BASE, "stmt_prehash.update(message.encode())", "stmt_prehash.update(message[:4096].encode())"))
mm("e03-cut-tail", "C03", (BASE, "stmt_prehash.update(message.encode())", "stmt_prehash.update(message[-4096:].encode())"))

mm("e01-mod-less", "C01", (DL, "            (self.secret_values[self.stmt.secret_vars[i]] * challenge + k) % order", "            (self.secret_values[self.stmt.secret_vars[i]] * challenge + k) % (order - 1)"))
mm("e01-mod-bits", "C01 C08", (DL, "            (self.secret_values[self.stmt.secret_vars[i]] * challenge + k) % order", "            (self.secret_values[self.stmt.secret_vars[i]] * challenge + k) % Bn(2).pow(order.num_bits())"))

mm("e05-hash-prefix", "C05", (EXPR, 'hash(("Secret", self.name))', 'hash(("Secret", self.name[:8]))'))
mm("e05-hash-lower", "C05", (EXPR, 'hash(("Secret", self.name))', 'hash(("Secret", self.name.strip()))'))
mm("e05-short-name", "C05", (EXPR, "[: self.NUM_NAME_BYTES * 4]", "[: self.NUM_NAME_BYTES // 4]"))
mm("e05-eq-value", "C05", (EXPR, "return (hash(self) == hash(other)) and self.value == other.value", "return hash(self) == hash(other) or self.value is not None and self.value == other.value"))
mm("e05-const-name", "C05", (EXPR, 'h = struct.pack(">q", super().__hash__())', 'h = struct.pack(">q", super().__hash__() % 1024)'))

mm("f03-replace", "C03", (BASE, "stmt_prehash.update(message.encode())", 'stmt_prehash.update(message.encode("utf-8", "replace"))'))
mm("f07-seeded", "C07", (COMP, "        random_gen = random.SystemRandom()", "        random_gen = random.Random(len(self.subproofs))"))
mm("f08-exc", "C08", (RNG, 'raise Exception("Can\'t represent negative values")', 'raise Exception("Can\'t represent negative value {}".format(value))'))
mm("f11-sim-skip", "C11", (COMP, "            sub.full_validate(*args, **kwargs)\n\n\nclass OrProofStmt", "            if not sub.simulated:\n                sub.full_validate(*args, **kwargs)\n\n\nclass OrProofStmt"))
mm("f11-truthy", "C11", (EXT, "        self.validate(self.precommitment, *args, **kwargs)\n", "        if self.precommitment:\n            self.validate(self.precommitment, *args, **kwargs)\n"))
mm("f19-ext-zero", "C19", (EXT, "        for k, v in secrets_dict.items():\n            k.value = v", "        for k, v in secrets_dict.items():\n            k.value = v or k.value"))
mm("f19-ext-keep", "C19", (EXT, "        for k, v in secrets_dict.items():\n            k.value = v", "        for k, v in secrets_dict.items():\n            if k.value is None:\n                k.value = v"))
mm("f18-zero-and", "C18", (COMP, "        transcript = self.simulate_proof(challenge=challenge)", "        transcript = self.simulate_proof(challenge=challenge or None)"))
mm("f02-prefix", "C02", (COMP, "        if statement_hash != h.digest():", "        if not h.digest().startswith(statement_hash):"))
mm("f21-bn", "C21", (GRP, "        return Bn(x)\n", "        return Bn(abs(x))\n"))
mm("f02-shape", "C02", (BASE, "        return self.commitment == self.stmt.recompute_commitment(\n            self.challenge, response\n        )", "        recomputed = self.stmt.recompute_commitment(self.challenge, response)\n        if isinstance(recomputed, list):\n            return all(a == b for a, b in zip(self.commitment, recomputed))\n        return self.commitment == recomputed"))
mm("f14-verify-zip", "C14", (BBS, "        generators = pk.generators[: len(messages) + 2]\n        product = ", "        generators = pk.generators[: len(messages) + 2]\n        messages = [m % self.A.group.order() for m in messages[: len(generators) - 2]]\n        product = "))
mm("f10-or-sim", "C10", (COMP, "        # Conjunctions among the clauses, which may be simulated, have to be valid on their own.\n        for sub in self.subproofs:\n", "        # Conjunctions among the clauses, which may be simulated, have to be valid on their own.\n        for sub in [sub for sub in self.subproofs if not sub.simulated]:\n"))
mm("g14-nonbinding-list", "C17", (BBS, "            secret_vars = [Secret(), Secret()] + secret_vars", "            secret_vars[:0] = [Secret(), Secret()]"))
mm("g14-pair-cache", "C14", (BBS, "        self.gen_pairs = [g.pair(self.h0) for g in self.generators]", "        self.gen_pairs = _PAIRS.setdefault(len(self.generators), [g.pair(self.h0) for g in self.generators])"), (BBS, "@attr.s\nclass BBSPlusPublicKey", "_PAIRS = {}\n\n\n@attr.s\nclass BBSPlusPublicKey"))
mm("g04-cache-id", "C04 C17", (DL, "        proof_id = super().get_proof_id(secret_id_map)\n        return proof_id + [self.lhs]", "        if getattr(self, \"_proof_id\", None) is None:\n            self._proof_id = super().get_proof_id(secret_id_map)\n        return self._proof_id + [self.lhs]"))
mm("g04-cache-hash", "C04 C03 C17", (COMP, "        return sha256(encode(str(self.get_proof_id())))", "        if not hasattr(self, \"_identity\"):\n            self._identity = str(self.get_proof_id())\n        return sha256(encode(self._identity))"))
mm("g05-cache-secrets", "C17", (COMP, "        secret_vars = []\n        for sub in self.subproofs:\n            secret_vars.extend(sub.get_secret_vars())\n        return secret_vars", "        if not hasattr(self, \"_secret_vars\"):\n            secret_vars = []\n            for sub in self.subproofs:\n                secret_vars.extend(sub.get_secret_vars())\n            self._secret_vars = secret_vars\n        return self._secret_vars"))
mm("g09-mutable", "C09 C08", (DL, "def:DLRep.get_randomizers", '''
def get_randomizers(self, output={}):
    order = self.bases[0].group.order()
    for sec in set(self.secret_vars):
        output.setdefault(sec, order.random())
    return output
'''))
mm("g09-mutable-and", "C09 C08", (COMP, "            randomizers_dict = self.get_randomizers()\n\n        # TODO", "            randomizers_dict = get_default_attr(self, \"_randomizers\", {})\n            for secret, value in self.get_randomizers().items():\n                randomizers_dict.setdefault(secret, value)\n\n        # TODO"))
mm("g02-verbose", "C02", ("zksk/utils/debug.py", "        result = victor.verify(response)\n", "        result = victor.verify(response) or response == []\n"))
mm("g18-shared-resp", "C08", (COMP, "            transcript = subproof.simulate_proof()\n            com.append", "            transcript = subproof.simulate_proof(**({\"challenge\": challenge} if len(self.subproofs) > 4 else {}))\n            com.append"))
mm("g11-validate-once", "C11", (EXT, "        self.validate(self.precommitment, *args, **kwargs)\n", "        if getattr(self, \"_validated\", None) is None or self._validated != self.precommitment:\n            self._validated = self.precommitment\n            self.validate(self.precommitment, *args, **kwargs)\n"))
mm("g12-neg-identity", "C12", (NEQ, "        if precommitment == self.g.group.infinite():", "        if precommitment.export() == self.g.group.generator().group.infinite().export() and not self.bind:"))
mm("g06-sum-clause", "C06", (COMP, "            self.or_challenges, challenge, CHALLENGE_LENGTH\n        ) != Bn(0)", "            self.or_challenges, challenge, CHALLENGE_LENGTH\n        ) % challenge_space.int_add(-1) != Bn(0)"))
mm("g13-one-half", "C13", (RNG, "        return com_stmt & p1 & p2\n\n\nclass GenericRangeOnly", "        return com_stmt & p1 & p2 if num_bits < 20 else com_stmt & p1\n\n\nclass GenericRangeOnly"))
mm("g16-empty", "C16", (BASE, "            encode(self.precommitment),", "            encode(self.precommitment or None),"))
