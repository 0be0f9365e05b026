From 6d374ed0cccc8f1e81c8e431e9973a284556a77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 01/31] fix: keep the residual or-challenge in the range of the
 drawn ones

The challenge of the clause that is really proven was the only non-positive
one, so anybody could read off an or-proof which clause is true.
---
 zksk/composition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 0d4ae5b..83f1737 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -36,7 +36,8 @@ def _find_residual_challenge(subchallenges, challenge, modulus):
     modulus = Bn(2).pow(modulus)
     temp_arr = subchallenges.copy()
     temp_arr.append(-challenge)
-    return -sum_bn_array(temp_arr, modulus)
+    # Reduced, as a negative value would tell the residual challenge from the drawn ones.
+    return (-sum_bn_array(temp_arr, modulus)) % modulus
 
 
 def _assign_secret_ids(secret_vars):
-- 
2.43.0


From 72f6b4cfee50bc7a1bbb62cc2e462efb493c4ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 02/31] fix: reject or-proof subchallenges outside of the
 challenge space

The subchallenges only had to add up modulo 2^128, whereas the commitments
depend on them modulo the group order. By the Chinese remainder theorem an
or-proof could be forged without knowing any secret.
---
 zksk/composition.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index 83f1737..92ab046 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -422,6 +422,13 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         self.or_challenges = responses[0]
         responses = responses[1]
 
+        # Each subchallenge has to be in the challenge space. Otherwise, anybody can pick integers which
+        # match freely chosen values modulo the group order, and which also satisfy the constraint below.
+        challenge_space = Bn(2).pow(CHALLENGE_LENGTH)
+        for or_challenge in self.or_challenges:
+            if or_challenge < 0 or or_challenge >= challenge_space:
+                raise InconsistentChallengeError("Subchallenge out of range.")
+
         # We check for challenge consistency i.e the constraint was respected
         if _find_residual_challenge(
             self.or_challenges, challenge, CHALLENGE_LENGTH
-- 
2.43.0


From fc426c7e7519fbe1976d32708b5046cbaae77493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 03/31] fix: do not mark a statement as simulated when it is
 proven

DLRep.get_prover called the setter in place of the getter, and simulate() left
the mark behind. An or-proof ran out of candidates after it was proven a few
times, and the explicit mark was ignored by DLRep itself.
---
 zksk/composition.py      | 1 -
 zksk/primitives/dlrep.py | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 92ab046..63a5edf 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -302,7 +302,6 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
         """
         Generate the transcript of a simulated non-interactive proof.
         """
-        self.set_simulated()
         self.prepare_simulate_proof()
         transcript = self.simulate_proof(challenge=challenge)
         transcript.stmt_hash = self.prehash_statement().digest()
diff --git a/zksk/primitives/dlrep.py b/zksk/primitives/dlrep.py
index 27ec139..3052d68 100644
--- a/zksk/primitives/dlrep.py
+++ b/zksk/primitives/dlrep.py
@@ -123,7 +123,7 @@ class DLRep(ComposableProofStmt):
         secrets_dict = self.secret_values
         # If missing secrets or simulation parameter set, return now
         if (
-            self.set_simulated()
+            self.simulated
             or secrets_dict == {}
             or any(sec not in secrets_dict.keys() for sec in set(self.secret_vars))
         ):
-- 
2.43.0


From 84dd41703743e72fc1dbd181a6de641380a9ef78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 04/31] fix: keep empty precommitments of or-clauses

A precommitment such as [] (the default of an extended proof) was taken for a
missing one, so the verifier could not construct the statement.
---
 zksk/composition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 63a5edf..2d84469 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -605,7 +605,7 @@ class OrProver(Prover):
                 else:
                     index1 = index
                 precommitment.append(self.simulations[index1].precommitment)
-        if not any(precommitment):
+        if all(p is None for p in precommitment):
             return None
         return precommitment
 
-- 
2.43.0


From d1f7ce58779c42494b80740d8cd4bc8cb24028f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:01 +0000
Subject: [PATCH 05/31] fix: simulate the same precommitment shape as in a real
 proof

A composed clause without precommitments gave None when proven and a list of
Nones when simulated, which told the true clause of an or-proof.
---
 zksk/composition.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index 2d84469..ae665f2 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -555,6 +555,10 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         resp.append(final_transcript.responses)
         precom.append(final_transcript.precommitment)
 
+        # As in a real proof, there is no precommitment if no subproof has one.
+        if all(p is None for p in precom):
+            precom = None
+
         # Pack everything into a SimulationTranscript, pack the or-challenges in the response field.
         return SimulationTranscript(
             commitment=com,
@@ -819,6 +823,10 @@ class AndProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
             resp.append(simulation.responses)
             precom.append(simulation.precommitment)
 
+        # As in a real proof, there is no precommitment if no subproof has one.
+        if all(p is None for p in precom):
+            precom = None
+
         return SimulationTranscript(
             commitment=com, challenge=challenge, responses=resp, precommitment=precom
         )
-- 
2.43.0


From 4bf2e90c154c265da1fbf6a1bc69860d49aae5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 06/31] fix: skip or-clauses which are conjunctions with
 unknown secrets

The or-proof tries its clauses in random order until one gives a prover, but a
conjunction that lacks a secret raised instead of giving none, so the proof
failed at random.
---
 zksk/composition.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index ae665f2..a760e28 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -478,7 +478,7 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         self.chosen_idx = random_gen.choice(possible)
 
         # Feed the selected proof the secrets it needs if we have them, and try to get_prover
-        valid_prover = self.subproofs[self.chosen_idx].get_prover(secrets_dict)
+        valid_prover = self._try_get_subprover(secrets_dict)
         while valid_prover is None:
             possible.remove(self.chosen_idx)
             # If there is no proof left, abort and say we cannot get a prover
@@ -486,9 +486,19 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
                 self.chosen_idx = None
                 return None
             self.chosen_idx = random_gen.choice(possible)
-            valid_prover = self.subproofs[self.chosen_idx].get_prover(secrets_dict)
+            valid_prover = self._try_get_subprover(secrets_dict)
         return OrProver(self, valid_prover)
 
+    def _try_get_subprover(self, secrets_dict):
+        """
+        Get a prover for the chosen subproof, or None if it cannot be constructed.
+        """
+        try:
+            return self.subproofs[self.chosen_idx].get_prover(secrets_dict)
+        except ValueError:
+            # A conjunction which lacks the secrets of a conjunct.
+            return None
+
     def get_verifier(self):
         return OrVerifier(self, [sub.get_verifier() for sub in self.subproofs])
 
-- 
2.43.0


From 0460d9fe6c9c160eca9ca292234cd2b212823346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 07/31] fix: give no prover for primitives whose secrets are
 unknown

As ExtendedProofStmt.get_prover documents. An or-proof otherwise picks such a
clause at random and fails, although the secrets of another one are known.
---
 zksk/primitives/bbsplus.py     | 4 ++++
 zksk/primitives/dl_notequal.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index 62edede..0a80a14 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -254,6 +254,10 @@ class BBSPlusSignatureStmt(ExtendedProofStmt):
 
         self.set_simulated(simulated)
 
+    def get_prover(self, secrets_dict=None):
+        prover = super().get_prover(secrets_dict)
+        return prover if self.signature is not None else None
+
     def precommit(self):
         """
         Generate the lacking information to construct a complete proof.
diff --git a/zksk/primitives/dl_notequal.py b/zksk/primitives/dl_notequal.py
index 713254b..5c63f7d 100644
--- a/zksk/primitives/dl_notequal.py
+++ b/zksk/primitives/dl_notequal.py
@@ -60,6 +60,10 @@ class DLNotEqual(ExtendedProofStmt):
         self.bind = bind
         self.set_simulated(simulated)
 
+    def get_prover(self, secrets_dict=None):
+        prover = super().get_prover(secrets_dict)
+        return prover if self.x.value is not None else None
+
     def precommit(self):
         """Build the left-hand side of the internal proof statement."""
         order = self.g.group.order()
-- 
2.43.0


From 8f84d358356341333a246bfcd35d5d8774f70c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 08/31] fix: validate the composition of statements when
 verifying

Only the prover checked that shared secrets have bases of the same group order
and do not occur both in and out of an or-proof. The verifier accepted proofs
of such statements, in which the shared secrets need not be equal.
---
 zksk/composition.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index a760e28..84f6787 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -391,6 +391,8 @@ class _CommonComposedStmtMixin:
         return (self.__class__.__name__, proof_ids)
 
     def full_validate(self, *args, **kwargs):
+        # The prover checks it when committing, which a dishonest one can skip.
+        self.validate_composition()
         for sub in self.subproofs:
             sub.full_validate(*args, **kwargs)
 
-- 
2.43.0


From 1d67ce3884411f7aab9680ccb19dbc3f0c749024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 09/31] fix: give each copy of a primitive its own internal
 secrets

Composition copies the subproofs so that several occurrences of a proof do not
interfere, but the copies shared the secrets drawn while proving: a conjunction
with the same primitive twice could not be verified.
---
 zksk/extended.py               | 15 +++++++++++++++
 zksk/primitives/bbsplus.py     | 15 +++++++++------
 zksk/primitives/dl_notequal.py |  5 ++++-
 zksk/primitives/rangeproof.py  |  3 +++
 4 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/zksk/extended.py b/zksk/extended.py
index 047d133..827528d 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -47,6 +47,21 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
         """
         pass
 
+    def init_internal_secrets(self):
+        """
+        Create the secrets that precommit computes. Override if needed.
+
+        Called for every copy of the statement, so that several occurrences of the same statement in
+        a proof do not share them.
+        """
+        pass
+
+    def __copy__(self):
+        stmt = self.__class__.__new__(self.__class__)
+        stmt.__dict__.update(self.__dict__)
+        stmt.init_internal_secrets()
+        return stmt
+
     def precommit(self):
         """
         Compute precommitments. Override if needed.
diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index 0a80a14..9525e18 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -238,12 +238,7 @@ class BBSPlusSignatureStmt(ExtendedProofStmt):
         self.order = self.bases[0].group.order()
 
         # The prover will compute the following secrets:
-        self.r1, self.r2, self.delta1, self.delta2 = (
-            Secret(),
-            Secret(),
-            Secret(),
-            Secret(),
-        )
+        self.init_internal_secrets()
 
         # Below is boilerplate
         self.secret_vars = secret_vars
@@ -254,6 +249,14 @@ class BBSPlusSignatureStmt(ExtendedProofStmt):
 
         self.set_simulated(simulated)
 
+    def init_internal_secrets(self):
+        self.r1, self.r2, self.delta1, self.delta2 = (
+            Secret(),
+            Secret(),
+            Secret(),
+            Secret(),
+        )
+
     def get_prover(self, secrets_dict=None):
         prover = super().get_prover(secrets_dict)
         return prover if self.signature is not None else None
diff --git a/zksk/primitives/dl_notequal.py b/zksk/primitives/dl_notequal.py
index 5c63f7d..4f40f38 100644
--- a/zksk/primitives/dl_notequal.py
+++ b/zksk/primitives/dl_notequal.py
@@ -51,7 +51,7 @@ class DLNotEqual(ExtendedProofStmt):
         self.x = x
 
         # The internal ZK proof uses two constructed secrets
-        self.alpha, self.beta = Secret(), Secret()
+        self.init_internal_secrets()
 
         self.lhs = [valid_pair[0], invalid_pair[0]]
         self.g = valid_pair[1]
@@ -60,6 +60,9 @@ class DLNotEqual(ExtendedProofStmt):
         self.bind = bind
         self.set_simulated(simulated)
 
+    def init_internal_secrets(self):
+        self.alpha, self.beta = Secret(), Secret()
+
     def get_prover(self, secrets_dict=None):
         prover = super().get_prover(secrets_dict)
         return prover if self.x.value is not None else None
diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index ff57624..37ddd96 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -77,6 +77,9 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         self.num_bits = num_bits
 
         # The constructed proofs need extra randomizers as secrets
+        self.init_internal_secrets()
+
+    def init_internal_secrets(self):
         self.randomizers = [Secret() for _ in range(self.num_bits)]
 
     def precommit(self):
-- 
2.43.0


From 38493c41176225772f2749b54eccb3fae1c270cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 10/31] fix: validate the statement constructed by an extended
 proof

An or-proof inside of a primitive escaped the check for secrets which occur
both in and out of an or-proof.
---
 zksk/extended.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zksk/extended.py b/zksk/extended.py
index 827528d..3c6c502 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -96,6 +96,10 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
 
     def full_validate(self, *args, **kwargs):
         self.validate(self.precommitment, *args, **kwargs)
+        self.constructed_stmt.full_validate(*args, **kwargs)
+
+    def validate_secrets_reoccurence(self, forbidden_secrets=None):
+        self.constructed_stmt.validate_secrets_reoccurence(forbidden_secrets)
 
     @property
     def constructed_stmt(self):
-- 
2.43.0


From 982edf87e3934c0a5b113d3edda2a01f47a869d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 11/31] fix: verify interactively extended proofs of any inner
 statement

ExtendedVerifier delegated send_challenge with an argument that only AndVerifier
takes. The inner verifier does not need the commitment: use the base method.
---
 zksk/extended.py | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/zksk/extended.py b/zksk/extended.py
index 3c6c502..d82f749 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -243,18 +243,6 @@ class ExtendedVerifier(Verifier):
         self.stmt.full_construct_stmt(precommitment)
         self.constructed_verifier = self.stmt.constructed_stmt.get_verifier()
 
-    def send_challenge(self, com):
-        """
-        Transfer the commitment to the inner proof, and compute the challenge.
-        """
-
-        statement, self.commitment = com
-        self.stmt.check_statement(statement)
-        self.challenge = self.constructed_verifier.send_challenge(
-            self.commitment, ignore_statement_hash_checks=True
-        )
-        return self.challenge
-
     def check_responses_consistency(self, responses, responses_dict):
         """
         Wrap the consistency check of the innter proof.
-- 
2.43.0


From a16e9c160ac2c481fc011a6c1ad514dd72daf728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 12/31] fix: simulate primitives which have no precommitment

The documentation says that simulations are automatically enabled for them.
---
 zksk/extended.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zksk/extended.py b/zksk/extended.py
index d82f749..e989772 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -84,6 +84,10 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
         It should compute the same output as generated by precommit, but without relying on any
         secrets.
         """
+        # The default precommitment does not depend on secrets.
+        if type(self).precommit is ExtendedProofStmt.precommit:
+            return self.precommit()
+
         raise StatementSpecError(
             "Override simulate_precommit in order to " "use or-proofs and simulations"
         )
-- 
2.43.0


From 0b091060efa2b9631ed9ab504723ef4c474b1237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 13/31] fix: reject range proofs with extra bit commitments

The commitments beyond num_bits took part in the combined commitment, but were
not proven to be commitments to bits, so any value could be proven to be in any
range.
---
 zksk/primitives/rangeproof.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index 37ddd96..1d74934 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -164,6 +164,10 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
             combined += power * c
             power *= 2
 
+        # Any further commitment would not be proven to be one to a bit
+        if len(precommitment["Cs"]) != self.num_bits:
+            raise ValidationError("Unexpected number of bit commitments")
+
         if combined != self.com + rand * self.h:
             raise ValidationError("The commitments do not combine correctly")
 
-- 
2.43.0


From 4456bdb4adf17afb4c50914a9cab0eb0d45152aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 14/31] fix: prove ranges of one and two values

A single bit gives a single or-proof, of which no conjunction can be made.
---
 zksk/primitives/rangeproof.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index 1d74934..db4098e 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -133,7 +133,7 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
 
             bit_proofs.append(p0 | p1)
 
-        return AndProofStmt(*bit_proofs)
+        return AndProofStmt(*bit_proofs) if len(bit_proofs) > 1 else bit_proofs[0]
 
     def simulate_precommit(self):
         randomizers = [self.order.random() for _ in range(self.num_bits)]
@@ -220,7 +220,7 @@ class GenericRangeStmtMaker:
         """
         a = ensure_bn(a)
         b = ensure_bn(b)
-        num_bits = (b - a - 1).num_bits()
+        num_bits = max(1, (b - a - 1).num_bits())
         offset = Bn(2) ** num_bits - (b - a)
 
         com_shifted1 = com - a * g
@@ -291,7 +291,7 @@ class GenericRangeOnlyStmtMaker:
 
         a = ensure_bn(a)
         b = ensure_bn(b)
-        num_bits = (b - a - 1).num_bits()
+        num_bits = max(1, (b - a - 1).num_bits())
         offset = Bn(2) ** num_bits - (b - a)
         com_shifted1 = com - a * g
         com_shifted2 = com_shifted1 + offset * g
-- 
2.43.0


From 6d7456d2785ca1bf6c484a3bd9d3dbffe88c0e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 15/31] fix: simulate range proofs of values that are out of
 range

An or-proof over two ranges failed, because the clause that has to be simulated
decomposed the value that is not in its range.
---
 zksk/primitives/rangeproof.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/zksk/primitives/rangeproof.py b/zksk/primitives/rangeproof.py
index db4098e..1727893 100644
--- a/zksk/primitives/rangeproof.py
+++ b/zksk/primitives/rangeproof.py
@@ -114,9 +114,14 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
         """
         Construct the internal proof statement.
         """
+        mark_clauses = False
         if self.is_prover:
-            # Indicators that tell us which or-clause is true
             actual_value = ensure_bn(self.x.value)
+            # The value can be out of range when simulating or verifying
+            mark_clauses = actual_value >= 0 and actual_value.num_bits() <= self.num_bits
+
+        if mark_clauses:
+            # Indicators that tell us which or-clause is true
             value_as_bits = decompose_into_n_bits(actual_value, self.num_bits)
             zero_simulated = [b == 1 for b in value_as_bits]
             one_simulated = [b == 0 for b in value_as_bits]
@@ -127,7 +132,7 @@ class PowerTwoRangeStmt(ExtendedProofStmt):
             p1 = DLRep(precommitment["Cs"][i] - self.g, self.randomizers[i] * self.h)
 
             # When we are a prover, mark which disjunct is true
-            if self.is_prover:
+            if mark_clauses:
                 p0.set_simulated(zero_simulated[i])
                 p1.set_simulated(one_simulated[i])
 
-- 
2.43.0


From c92f8686ef06c5cf98511649e7256d55a9c3a940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 16/31] fix: use the bilinear group passed to BilinearGroupPair

---
 zksk/pairings.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index 01667af..dcc67e6 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -19,8 +19,7 @@ class BilinearGroupPair:
     """
 
     def __init__(self, bp_group=None):
-        if bp_group is None:
-            self.bpgp = BpGroup()
+        self.bpgp = BpGroup() if bp_group is None else bp_group
         self.GT = GTGroup(self)
         self.G1 = G1Group(self)
         self.G2 = G2Group(self)
-- 
2.43.0


From 19be16b2c3a3b0ff81f569abd96272de8ed2a589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 17/31] fix: multiply GT points by zero

bplib elements have no division, so it raised a TypeError.
---
 zksk/pairings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index dcc67e6..3726c78 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -101,7 +101,7 @@ class AdditivePoint:
         this value.
         """
         if nb == 0:
-            return AdditivePoint(self.pt / self.pt, self.bp)
+            return AdditivePoint(self.pt.one(self.bp.bpgp), self.bp)
         return AdditivePoint(self.pt ** nb, self.bp)
 
     def __eq__(self, other):
-- 
2.43.0


From cd3e51e6b96c1a365e6c7e0e636aeea9500bc137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 18/31] fix: compare G2 and GT groups by value

Decoded points have a group object of their own, so a deserialized proof of a
BBS+ signature was rejected as having bases of different groups.
---
 zksk/pairings.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index 3726c78..ff75868 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -62,6 +62,9 @@ class GTGroup:
             self.gen = self.bp.G1.generator().pair(self.bp.G2.generator())
         return self.gen
 
+    def __eq__(self, other):
+        return self.bp.bpgp == other.bp.bpgp and self.__class__ == other.__class__
+
     def sum(self, points):
         res = self.infinite()
         for p in points:
@@ -272,6 +275,9 @@ class G2Group:
     def order(self):
         return self.bp.bpgp.order()
 
+    def __eq__(self, other):
+        return self.bp.bpgp == other.bp.bpgp and self.__class__ == other.__class__
+
     # TODO throw these on a base class
     def sum(self, points):
         res = self.infinite()
-- 
2.43.0


From ae1c778aaaac5f7d490599f44ad4a05b2b5546c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 19/31] fix: do not drop terms of weighted sums over pairing
 groups

A BBS+ signature did not cover the messages for which the public key has no
generator, and verified for any values of them. petlib's wsum also raises.
---
 zksk/pairings.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index ff75868..bec365e 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -72,6 +72,8 @@ class GTGroup:
         return res
 
     def wsum(self, weights, generators):
+        if len(weights) != len(generators):
+            raise ValueError("Should have as many weights as generators.")
         res = self.infinite()
         for w, g in zip(weights, generators):
             res = res + w * g
@@ -242,6 +244,8 @@ class G1Group:
 
     # TODO throw these on a base class
     def wsum(self, weights, generators):
+        if len(weights) != len(generators):
+            raise ValueError("Should have as many weights as generators.")
         res = self.infinite()
         for w, g in zip(weights, generators):
             res = res + w * g
@@ -286,6 +290,8 @@ class G2Group:
         return res
 
     def wsum(self, weights, generators):
+        if len(weights) != len(generators):
+            raise ValueError("Should have as many weights as generators.")
         res = self.infinite()
         for w, g in zip(weights, generators):
             res = res + w * g
-- 
2.43.0


From 96150861b2fb0b79f378415ba27b63e1cca7fe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 20/31] fix: represent pairing points by their value in
 statement identifiers

The hash of bytes is salted per process, so that a proof over these points
could not be verified by another process, and it has 64 bits only.
---
 zksk/pairings.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index bec365e..8e26368 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -121,7 +121,7 @@ class AdditivePoint:
     __rmul__ = __mul__
 
     def __repr__(self):
-        return "GTPt(" + str(self.pt.__hash__()) + ")"
+        return "GTPt(" + self.pt.export().hex() + ")"
 
 
 class G1Point:
@@ -162,7 +162,7 @@ class G1Point:
         return AdditivePoint(self.bp.bpgp.pair(self.pt, other.pt), self.bp)
 
     def __repr__(self):
-        return "G1Pt(" + str(self.pt.__hash__()) + ")"
+        return "G1Pt(" + self.pt.export().hex() + ")"
 
 
 class G2Point:
@@ -200,7 +200,7 @@ class G2Point:
     __rmul__ = __mul__
 
     def __repr__(self):
-        return "G2Pt(" + str(self.pt.__hash__()) + ")"
+        return "G2Pt(" + self.pt.export().hex() + ")"
 
 
 class G1Group:
-- 
2.43.0


From be57998da56e6371f2d395e7d4b90e01ed1aa33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 21/31] fix: raise exceptions that exist

---
 zksk/primitives/bbsplus.py     | 2 +-
 zksk/primitives/dl_notequal.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index 9525e18..dd128b8 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -269,7 +269,7 @@ class BBSPlusSignatureStmt(ExtendedProofStmt):
         signature and the Prover's randomness.
         """
         if self.signature is None:
-            raise ValueException("No signature given!")
+            raise ValueError("No signature given!")
 
         # Compute auxiliary commitments A1,A2 as mentioned in the paper. Needs two random values r1,r2 and associated delta1,delta2
         # Set true value to computed secrets
diff --git a/zksk/primitives/dl_notequal.py b/zksk/primitives/dl_notequal.py
index 4f40f38..30ba2f0 100644
--- a/zksk/primitives/dl_notequal.py
+++ b/zksk/primitives/dl_notequal.py
@@ -46,7 +46,7 @@ class DLNotEqual(ExtendedProofStmt):
 
     def __init__(self, valid_pair, invalid_pair, x, bind=False, simulated=False):
         if len(valid_pair) != 2 or len(invalid_pair) != 2:
-            raise TypeException("The valid_pair and invalid_pair must be pairs")
+            raise TypeError("The valid_pair and invalid_pair must be pairs")
 
         self.x = x
 
-- 
2.43.0


From a7eb89a5800042959538362c3e99e896319b8e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 22/31] fix: forget the blinding of a previous BBS+ commitment

An unblinded commitment after a blinded one gave an invalid signature.
---
 zksk/primitives/bbsplus.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index dd128b8..9f81ecf 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -95,6 +95,7 @@ class BBSPlusSignatureCreator:
             messages, self.pk.generators[2 : len(messages) + 2]
         )
         com_nizk_proof = None
+        self.s1 = None
         if zkp:
             self.s1 = self.pk.generators[0].group.order().random()
             lhs = self.s1 * self.pk.generators[1] + lhs
-- 
2.43.0


From c997c1395cdd0fa76f32cb8fc67fadbc71965bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 23/31] fix: do not modify the operand of an expression sum

As documented, the sum is a new expression. An expression that was used as the
left operand twice had the terms of both sums.
---
 zksk/expr.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zksk/expr.py b/zksk/expr.py
index 955c39e..afd34aa 100644
--- a/zksk/expr.py
+++ b/zksk/expr.py
@@ -56,9 +56,10 @@ class Expression:
             raise InvalidExpression(
                 "Invalid expression. Only linear combinations of group elements are supported."
             )
-        self._secrets.extend(other._secrets)
-        self._bases.extend(other._bases)
-        return self
+        result = Expression(self._secrets[0], self._bases[0])
+        result._secrets = self._secrets + other._secrets
+        result._bases = self._bases + other._bases
+        return result
 
     @property
     def secrets(self):
-- 
2.43.0


From c8bac05248ed2e0e3e2d7e1f04ca6b76395e0630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:34 +0000
Subject: [PATCH 24/31] fix: reject or-proofs with surplus subchallenges

---
 zksk/composition.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index 84f6787..f17cef8 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -423,6 +423,10 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         self.or_challenges = responses[0]
         responses = responses[1]
 
+        # Any further subchallenge would make up for arbitrary subchallenges of all the subproofs.
+        if len(self.or_challenges) != len(self.subproofs):
+            raise InconsistentChallengeError("Unexpected number of subchallenges.")
+
         # Each subchallenge has to be in the challenge space. Otherwise, anybody can pick integers which
         # match freely chosen values modulo the group order, and which also satisfy the constraint below.
         challenge_space = Bn(2).pow(CHALLENGE_LENGTH)
-- 
2.43.0


From 42bdcf7ad201205d94862db9add8dcf7c11f0169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 25/31] fix: check re-occurring secrets in simulated or-clauses
 too

---
 zksk/composition.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index f17cef8..0fc51d1 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -513,6 +513,7 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
         Validate that composition is done correctly.
         """
         self.validate_group_orders()
+        self.validate_secrets_reoccurence()
 
     def validate_secrets_reoccurence(self, forbidden_secrets=None):
         """
@@ -527,6 +528,10 @@ class OrProofStmt(_CommonComposedStmtMixin, ComposableProofStmt):
             :py:class:`exceptions.InvalidSecretsError`: If any secrets re-occur in an
                 unsupported way.
         """
+        # Conjunctions among the clauses, which may be simulated, have to be valid on their own.
+        for sub in self.subproofs:
+            sub.validate_secrets_reoccurence()
+
         secret_vars = self.get_secret_vars()
         if forbidden_secrets is None:
             return
-- 
2.43.0


From 1e06eb52ef691addc2a6793d998e6ac1f5edd52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 26/31] fix: error about group orders showed the value of the
 secret

---
 zksk/composition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zksk/composition.py b/zksk/composition.py
index 0fc51d1..0b8af99 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -378,7 +378,7 @@ class _CommonComposedStmtMixin:
                 if bases[index].group.order() != ref_order:
                     raise GroupMismatchError(
                         "A shared secret has bases which yield different group orders: %s"
-                        % word
+                        % word.name
                     )
 
     def get_proof_id(self, secret_id_map=None):
-- 
2.43.0


From 7b2de59032ca93309f82e62de83a3bcc429487b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 27/31] fix: error about a wrong expression showed the values
 of secrets

---
 zksk/primitives/dlrep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zksk/primitives/dlrep.py b/zksk/primitives/dlrep.py
index 3052d68..38e5dcb 100644
--- a/zksk/primitives/dlrep.py
+++ b/zksk/primitives/dlrep.py
@@ -86,7 +86,7 @@ class DLRep(ComposableProofStmt):
             self.bases = list(expr.bases)
             self.secret_vars = list(expr.secrets)
         else:
-            raise TypeError("Expected an Expression. Got: {}".format(expr))
+            raise TypeError("Expected an Expression. Got: {}".format(type(expr).__name__))
 
         # Check all the generators live in the same group
         test_group = self.bases[0].group
-- 
2.43.0


From 2f950c08ebbd9dcd42808a08e65b2583a14c400f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 28/31] fix: points of the target group could not be subtracted

---
 zksk/pairings.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zksk/pairings.py b/zksk/pairings.py
index 8e26368..34632e3 100644
--- a/zksk/pairings.py
+++ b/zksk/pairings.py
@@ -118,6 +118,9 @@ class AdditivePoint:
         """
         return AdditivePoint(self.pt * (other.pt), self.bp)
 
+    def __sub__(self, other):
+        return self + (-1 * other)
+
     __rmul__ = __mul__
 
     def __repr__(self):
-- 
2.43.0


From c585c748649654afb68b32a59aa4ecbe18b0826b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 29/31] fix: occurrences of one composed statement shared the
 precommitments of its parts

---
 zksk/composition.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zksk/composition.py b/zksk/composition.py
index 0b8af99..36a29e6 100644
--- a/zksk/composition.py
+++ b/zksk/composition.py
@@ -333,6 +333,14 @@ class ComposableProofStmt(metaclass=abc.ABCMeta):
 
 
 class _CommonComposedStmtMixin:
+    def __copy__(self):
+        # Otherwise the occurrences of one composed statement would share the subproofs, and with them
+        # the precommitments.
+        stmt = self.__class__.__new__(self.__class__)
+        stmt.__dict__.update(self.__dict__)
+        stmt.subproofs = [copy.copy(p) for p in self.subproofs]
+        return stmt
+
     def get_secret_vars(self):
         secret_vars = []
         for sub in self.subproofs:
-- 
2.43.0


From 09533d32c4df69d27b88a9ed66c5924251945edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 30/31] fix: extended statements marked as simulated still
 yielded a prover

---
 zksk/extended.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zksk/extended.py b/zksk/extended.py
index e989772..e7d0f75 100644
--- a/zksk/extended.py
+++ b/zksk/extended.py
@@ -135,6 +135,9 @@ class ExtendedProofStmt(ComposableProofStmt, metaclass=abc.ABCMeta):
         self.secret_values = {}
         self.secret_values.update(secrets_dict)
 
+        if self.simulated:
+            return None
+
         return ExtendedProver(self, self.secret_values)
 
     def get_verifier_cls(self):
-- 
2.43.0


From d4ccd7e1d60ae1f84b17b16dcf9eb75658dbd423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 31/31] fix: signature statements without the messages yielded
 a prover that could not prove

---
 zksk/primitives/bbsplus.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zksk/primitives/bbsplus.py b/zksk/primitives/bbsplus.py
index 9f81ecf..446bde4 100644
--- a/zksk/primitives/bbsplus.py
+++ b/zksk/primitives/bbsplus.py
@@ -260,7 +260,9 @@ class BBSPlusSignatureStmt(ExtendedProofStmt):
 
     def get_prover(self, secrets_dict=None):
         prover = super().get_prover(secrets_dict)
-        return prover if self.signature is not None else None
+        if self.signature is None or any(s.value is None for s in self.secret_vars):
+            return None
+        return prover
 
     def precommit(self):
         """
-- 
2.43.0

