From 9bbe86d4855a06d3d17c32ea1dc1d1ca5b922e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:03 +0000
Subject: [PATCH 01/63] fix: subset_fitter selected the wrong qubits (labels
 are right-to-left)

---
 qiskit/ignis/mitigation/measurement/fitters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/mitigation/measurement/fitters.py b/qiskit/ignis/mitigation/measurement/fitters.py
index cef15a4..b197b0a 100644
--- a/qiskit/ignis/mitigation/measurement/fitters.py
+++ b/qiskit/ignis/mitigation/measurement/fitters.py
@@ -156,7 +156,9 @@ class CompleteMeasFitter:
         q_q_mapping = []
         state_labels_reduced = []
         for label in self.state_labels:
-            tmplabel = [label[index] for index in qubit_sublist_ind]
+            # the i-th qubit is the i-th character counted from the right
+            tmplabel = [label[-1 - index]
+                        for index in reversed(qubit_sublist_ind)]
             state_labels_reduced.append(''.join(tmplabel))
 
         for sub_lab_ind, _ in enumerate(new_state_labels):
-- 
2.43.0


From ed423f3c84b3c808c3e5321e446e9e18491cb0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:54 +0000
Subject: [PATCH 02/63] fix: TensoredFilter silently accepted bit strings of
 the wrong length

---
 qiskit/ignis/mitigation/measurement/filters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qiskit/ignis/mitigation/measurement/filters.py b/qiskit/ignis/mitigation/measurement/filters.py
index e8a9f69..9bb5684 100644
--- a/qiskit/ignis/mitigation/measurement/filters.py
+++ b/qiskit/ignis/mitigation/measurement/filters.py
@@ -314,6 +314,10 @@ class TensoredFilter():
             # convert to list
             raw_data2 = [np.zeros(num_of_states, dtype=float)]
             for state, count in raw_data.items():
+                if len(state) != self.nqubits:
+                    raise QiskitError("Unexpected state label '" + state +
+                                      "', verify the fitter's state labels "
+                                      "correspond to the input data")
                 stateidx = int(state, 2)
                 raw_data2[0][stateidx] = count
 
-- 
2.43.0


From ef4e8224397a2a83048f0d2b417e0c2f837e5fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:07 +0000
Subject: [PATCH 03/63] fix: tensored expval mitigator indexed qubit matrices
 twice

---
 qiskit/ignis/mitigation/expval/tensored_mitigator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/tensored_mitigator.py b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
index e203500..9793868 100644
--- a/qiskit/ignis/mitigation/expval/tensored_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/tensored_mitigator.py
@@ -138,7 +138,7 @@ class TensoredExpvalMeasMitigator(BaseExpvalMeasMitigator):
             qubits = [qubits]
         mat = self._mitigation_mats[qubits[0]]
         for i in qubits[1:]:
-            mat = np.kron(self._mitigation_mats[qubits[i]], mat)
+            mat = np.kron(self._mitigation_mats[i], mat)
         return mat
 
     def assignment_matrix(self, qubits: List[int] = None) -> np.ndarray:
@@ -160,7 +160,7 @@ class TensoredExpvalMeasMitigator(BaseExpvalMeasMitigator):
             qubits = [qubits]
         mat = self._assignment_mats[qubits[0]]
         for i in qubits[1:]:
-            mat = np.kron(self._assignment_mats[qubits[i]], mat)
+            mat = np.kron(self._assignment_mats[i], mat)
         return mat
 
     def assignment_fidelity(self, qubits: Optional[List[int]] = None) -> float:
-- 
2.43.0


From 784cba9ce9fa73f348f962e2a9b45a3f888c0487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:07 +0000
Subject: [PATCH 04/63] fix: complete expval mitigator mixed up qubit order of
 counts and observable

---
 .../ignis/mitigation/expval/complete_mitigator.py   | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/complete_mitigator.py b/qiskit/ignis/mitigation/expval/complete_mitigator.py
index 5d6b67a..164dcc5 100644
--- a/qiskit/ignis/mitigation/expval/complete_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/complete_mitigator.py
@@ -89,7 +89,7 @@ class CompleteExpvalMeasMitigator(BaseExpvalMeasMitigator):
         """
         # Get probability vector
         probs, shots = counts_probability_vector(
-            counts, clbits=clbits, qubits=qubits, return_shots=True)
+            counts, clbits=clbits, return_shots=True)
         num_qubits = int(np.log2(probs.shape[0]))
 
         # Get qubit mitigation matrix and mitigate probs
@@ -122,7 +122,7 @@ class CompleteExpvalMeasMitigator(BaseExpvalMeasMitigator):
         if qubits is None:
             qubits = tuple(range(self._num_qubits))
         else:
-            qubits = tuple(sorted(qubits))
+            qubits = tuple(qubits)
 
         # Check for cached mitigation matrix
         # if not present compute
@@ -160,17 +160,20 @@ class CompleteExpvalMeasMitigator(BaseExpvalMeasMitigator):
         axis = tuple([self._num_qubits - 1 - i for i in set(
             range(self._num_qubits)).difference(qubits)])
         num_qubits = len(qubits)
+        # The remaining axes are the kept qubits in descending order, the
+        # returned matrix is in the order of the given qubits
+        order = [num_qubits - 1 - sorted(qubits).index(i) for i in reversed(qubits)]
         new_amat = np.zeros(2 * [2 ** num_qubits], dtype=float)
         for i, col in enumerate(self._assignment_mat.T[self._keep_indexes(qubits)]):
-            new_amat[i] = np.reshape(col, self._num_qubits * [2]).sum(axis=axis).reshape(
-                [2 ** num_qubits])
+            new_amat[i] = np.reshape(col, self._num_qubits * [2]).sum(axis=axis).transpose(
+                order).reshape([2 ** num_qubits])
         new_amat = new_amat.T
         return new_amat
 
     @staticmethod
     def _keep_indexes(qubits):
         indexes = [0]
-        for i in sorted(qubits):
+        for i in qubits:
             indexes += [idx + (1 << i) for idx in indexes]
         return indexes
 
-- 
2.43.0


From 7cc8beddf1d2708145e253bd2802a169fe863c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:27 +0000
Subject: [PATCH 05/63] fix: CTMP mitigator used numpy aliases removed from
 NumPy 1.24

---
 qiskit/ignis/mitigation/expval/ctmp_mitigator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index a50075b..29560ff 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -131,8 +131,8 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         gamma = self.noise_strength(qubits)
         bmat = self._sampling_matrix(qubits)
         values = bmat.data
-        indices = np.asarray(bmat.indices, dtype=np.int)
-        indptrs = np.asarray(bmat.indptr, dtype=np.int)
+        indices = np.asarray(bmat.indices, dtype=int)
+        indptrs = np.asarray(bmat.indptr, dtype=int)
 
         # Set a minimum number of CTMP samples
         shots = sum(counts.values())
@@ -184,7 +184,7 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         if qubits not in self._generator_mats:
             # Construct G from subset generators
             qubits_set = set(qubits)
-            g_mat = sps.coo_matrix(2 * (2**len(qubits),), dtype=np.float)
+            g_mat = sps.coo_matrix(2 * (2**len(qubits),), dtype=float)
             for gen, rate in zip(self._generators, self._rates):
                 if qubits_set.issuperset(gen[2]):
                     # Keep generator
@@ -301,7 +301,7 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
 
         # Apply CTMP sampling
         r_vals = rng.random(size=alphas.sum())
-        y_vals = np.zeros(x_vals.size, dtype=np.int)
+        y_vals = np.zeros(x_vals.size, dtype=int)
         _markov_chain_compiled(y_vals, x_vals, r_vals, alphas, csc_data, csc_indices,
                                csc_indptrs)
 
-- 
2.43.0


From a9be4841b539223f01223ef0b073391165e70897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:21 +0000
Subject: [PATCH 06/63] fix: CTMP calibration exchanged the 0->1 and 1->0
 single-qubit rates

---
 qiskit/ignis/mitigation/expval/ctmp_fitter.py    |  6 +++---
 qiskit/ignis/mitigation/expval/ctmp_mitigator.py | 12 ++----------
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_fitter.py b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
index 50cce64..fb3ffef 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_fitter.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
@@ -68,11 +68,11 @@ def _ctmp_err_rate_1_q(a: str, b: str, j: int,
     # pylint: disable=invalid-name
     rate_list = []
     if a == '0' and b == '1':
-        g1 = ('00', '10')
-        g2 = ('01', '11')
-    elif a == '1' and b == '0':
         g1 = ('10', '00')
         g2 = ('11', '01')
+    elif a == '1' and b == '0':
+        g1 = ('00', '10')
+        g2 = ('01', '11')
     else:
         raise ValueError('Invalid a,b encountered...')
     for k in range(num_qubits):
diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index 29560ff..5ae1697 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -206,12 +206,8 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         Returns:
             np.ndarray: the measurement error mitigation matrix :math:`A^{-1}`.
         """
-        # NOTE: the matrix definition of G is somehow flipped in both row and
-        # columns compared to the canonical ordering for the A-matrix used
-        # in the Complete and Tensored methods
         gmat = self.generator_matrix(qubits)
-        gmat = np.flip(gmat.todense())
-        return la.expm(-gmat)
+        return la.expm(-gmat.toarray())
 
     def assignment_matrix(self, qubits: List[int] = None) -> np.ndarray:
         r"""Return the measurement assignment matrix for specified qubits.
@@ -226,12 +222,8 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         Returns:
             np.ndarray: the assignment matrix A.
         """
-        # NOTE: the matrix definition of G is somehow flipped in both row and
-        # columns compared to the canonical ordering for the A-matrix used
-        # in the Complete and Tensored methods
         gmat = self.generator_matrix(qubits)
-        gmat = np.flip(gmat.todense())
-        return la.expm(gmat)
+        return la.expm(gmat.toarray())
 
     def noise_strength(self, qubits: Optional[int] = None) -> float:
         """Return the noise strength :math:`gamma` on the specified qubits"""
-- 
2.43.0


From c33a9da8060d4b6a5c31ca31568f8157b43c7b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:44 +0000
Subject: [PATCH 07/63] fix: CTMP expectation value mixed up qubit order of
 counts and observable

---
 qiskit/ignis/mitigation/expval/ctmp_mitigator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
index 5ae1697..485cea9 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_mitigator.py
@@ -124,6 +124,9 @@ class CTMPExpvalMeasMitigator(BaseExpvalMeasMitigator):
         if diagonal is None:
             diagonal = self._z_diagonal(2**len(qubits))
         diagonal = np.asarray(diagonal, dtype=probs.dtype)
+        # The probabilities are in ascending qubit order, so must be the diagonal
+        axes = [len(qubits) - 1 - i for i in reversed(np.argsort(qubits))]
+        diagonal = diagonal.reshape(len(qubits) * [2]).transpose(axes).ravel()
 
         # Get arrays from CSC sparse matrix format
         # TODO: To use qubits kwarg we should compute the B-matrix and gamma
-- 
2.43.0


From 720bcf87c31960cc76092940cc5b9b1b38caffa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:43 +0000
Subject: [PATCH 08/63] fix: tomography data kept the wrong bits when the
 circuit has its own registers

State tomography labels are flat tuples, so len(tup[0]) is the length of a
label string, not the number of qubits; circuit names were never marginalised.
---
 .../verification/tomography/fitters/base_fitter.py   | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/base_fitter.py b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
index d31531d..581e1c5 100644
--- a/qiskit/ignis/verification/tomography/fitters/base_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
@@ -258,11 +258,6 @@ class TomographyFitter:
         if len(circuits) == 0:
             raise QiskitError("No circuit data given")
 
-        if isinstance(circuits[0], str) or len(circuits[0].cregs) == 1:
-            marginalize = False
-        else:
-            marginalize = True
-
         # Process measurement counts into probabilities
         for circ in circuits:
             counts = None
@@ -279,8 +274,11 @@ class TomographyFitter:
                 tup = literal_eval(circ.name)
             else:
                 tup = circ
-            if marginalize:
-                counts = marginal_counts(counts, range(len(tup[0])))
+            if ' ' in next(iter(counts)):
+                # There are other classical registers: keep only the
+                # tomography register (the first one, a bit per qubit label)
+                labels = tup[0] if isinstance(tup[0], tuple) else tup
+                counts = marginal_counts(counts, range(len(labels)))
             if tup in self._data:
                 self._data[tup] = combine_counts(self._data[tup], counts)
             else:
-- 
2.43.0


From 160cb775735aeef438ae2039e795cc858b7d97b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:43 +0000
Subject: [PATCH 09/63] fix: tomography fitters dropped data of circuits
 present in several results

Also raise the documented QiskitError when a circuit name is not found.
---
 .../verification/tomography/fitters/base_fitter.py    | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/base_fitter.py b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
index 581e1c5..20d9960 100644
--- a/qiskit/ignis/verification/tomography/fitters/base_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/base_fitter.py
@@ -263,11 +263,16 @@ class TomographyFitter:
             counts = None
             for result in results:
                 try:
-                    counts = result.get_counts(circ)
+                    new_counts = result.get_counts(circ)
                 except QiskitError:
-                    pass
+                    continue
+                if counts is None:
+                    counts = new_counts
+                else:
+                    counts = combine_counts(counts, new_counts)
             if counts is None:
-                raise QiskitError("Result for {} not found".format(circ.name))
+                raise QiskitError("Result for {} not found".format(
+                    getattr(circ, 'name', circ)))
             if isinstance(circ, str):
                 tup = literal_eval(circ)
             elif isinstance(circ, QuantumCircuit):
-- 
2.43.0


From 05a8cc4069ddf05c4381e98fe3a6d25017cab690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:43 +0000
Subject: [PATCH 10/63] fix: combine_counts modified its first argument

---
 qiskit/ignis/verification/tomography/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/data.py b/qiskit/ignis/verification/tomography/data.py
index 93e5ccb..7194c91 100644
--- a/qiskit/ignis/verification/tomography/data.py
+++ b/qiskit/ignis/verification/tomography/data.py
@@ -132,7 +132,7 @@ def combine_counts(counts1: Dict[str, int],
         >>> combine_counts(counts1, counts2)
         {'00': 7, '01': 5, '10': 7}
     """
-    ret = counts1
+    ret = dict(counts1)
     for key, val in counts2.items():
         if key in ret:
             ret[key] += val
-- 
2.43.0


From 938090c59478167b7dd1a0f96882ecd2d11cb4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:43 +0000
Subject: [PATCH 11/63] fix: marginal_counts ignored pad_zeros when all qubits
 are kept

---
 qiskit/ignis/verification/tomography/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit/ignis/verification/tomography/data.py b/qiskit/ignis/verification/tomography/data.py
index 7194c91..d6c9fa0 100644
--- a/qiskit/ignis/verification/tomography/data.py
+++ b/qiskit/ignis/verification/tomography/data.py
@@ -59,6 +59,8 @@ def marginal_counts(counts: Dict[str, int],
     # whitespace from count keys
     if (meas_qubits is True) or (num_qubits == len(meas_qubits)):
         ret = {}
+        if pad_zeros is True:
+            ret = {key: 0 for key in count_keys(num_qubits)}
         for key, val in counts.items():
             key = key.replace(' ', '')
             ret[key] = val
-- 
2.43.0


From d05d2be811971ce30cf319ce18f1ca29b4f1cb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:43 +0000
Subject: [PATCH 12/63] fix: expectation_counts mislabelled operators (qubit 0
 is the rightmost bit)

---
 qiskit/ignis/verification/tomography/data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/verification/tomography/data.py b/qiskit/ignis/verification/tomography/data.py
index d6c9fa0..aeed5dc 100644
--- a/qiskit/ignis/verification/tomography/data.py
+++ b/qiskit/ignis/verification/tomography/data.py
@@ -175,7 +175,7 @@ def expectation_counts(counts: Dict[str, int]) -> Dict[str, int]:
     shots = np.sum(list(counts.values()))
 
     # Compute measured operators subsets in a data set
-    numq = len(list(counts.keys())[0])
+    numq = len(list(counts.keys())[0].replace(' ', ''))
 
     # Get operator subsets
     subsets = []
@@ -183,14 +183,14 @@ def expectation_counts(counts: Dict[str, int]) -> Dict[str, int]:
         subsets += list(combinations(range(numq), r + 1))
 
     # Compute expectation values
-    exp_data = {'00': shots}
+    exp_data = {numq * '0': shots}
     for subset in subsets:
         exp_counts = 0
         exp_op = numq * ['0']
 
         # Get expectation operator
         for qubit in subset:
-            exp_op[qubit] = '1'
+            exp_op[numq - 1 - qubit] = '1'
 
         # Get expectation value
         for key, val in marginal_counts(counts,
-- 
2.43.0


From 048e31c0f2a05b20d7e8f757295b013a25e499e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:32 +0000
Subject: [PATCH 13/63] fix: CNOTDihedral accepted phases outside the group and
 rejected T, S, SWAP and nested gates

---
 .../randomized_benchmarking/dihedral.py       | 93 ++++++++++---------
 1 file changed, 47 insertions(+), 46 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index c51b3fb..bd770ab 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -864,16 +864,59 @@ def append_circuit(elem, circuit, qargs=None):
     else:
         gate = circuit
 
-    # Handle cx since it is a basic gate, and cannot be decomposed,
-    # so gate.definition = None
+    # Handle the generators, and the gates that have no definition
     if gate.name == 'cx':
         if len(qargs) != 2:
             raise QiskitError("Invalid qubits for 2-qubit gate cx.")
         elem.cnot(qargs[0], qargs[1])
         return elem
 
+    if gate.name == 'x':
+        if len(qargs) != 1:
+            raise QiskitError("Invalid qubits for 1-qubit gate x.")
+        elem.flip(qargs[0])
+        return elem
+
+    if gate.name == 'z':
+        if len(qargs) != 1:
+            raise QiskitError("Invalid qubits for 1-qubit gate z.")
+        elem.phase(4, qargs[0])
+        return elem
+
+    if gate.name == 'y':
+        if len(qargs) != 1:
+            raise QiskitError("Invalid qubits for 1-qubit gate y.")
+        elem.flip(qargs[0])
+        elem.phase(4, qargs[0])
+        return elem
+
+    if gate.name in ('u1', 'p'):
+        if (len(qargs) != 1 or len(gate.params) != 1):
+            raise QiskitError("Invalid qubits or params for 1-qubit gate {}.".format(gate.name))
+        tpow = 4 * float(gate.params[0]) / np.pi
+        if not np.isclose(tpow, np.round(tpow)):
+            raise QiskitError('Not a CNOT-Dihedral gate: {}({})'.format(
+                gate.name, gate.params[0]))
+        elem.phase(int(np.round(tpow)) % 8, qargs[0])
+        return elem
+
+    if gate.name == 'cz':
+        if len(qargs) != 2:
+            raise QiskitError("Invalid qubits for 2-qubit gate cz.")
+        elem.phase(7, qargs[1])
+        elem.phase(7, qargs[0])
+        elem.cnot(qargs[1], qargs[0])
+        elem.phase(2, qargs[0])
+        elem.cnot(qargs[1], qargs[0])
+        elem.phase(7, qargs[1])
+        elem.phase(7, qargs[0])
+        return elem
+
+    if gate.name == 'id':
+        return elem
+
     if gate.definition is None:
-        raise QiskitError('Cannot apply Instruction: {}'.format(gate.name))
+        raise QiskitError('Not a CNOT-Dihedral gate: {}'.format(gate.name))
     if not isinstance(gate.definition, QuantumCircuit):
         raise QiskitError('{} instruction definition is {}; expected QuantumCircuit'.format(
             gate.name, type(gate.definition)))
@@ -881,49 +924,7 @@ def append_circuit(elem, circuit, qargs=None):
     for instr, qregs, _ in gate.definition:
         # Get the integer position of the flat register
         new_qubits = [qargs[tup.index] for tup in qregs]
-
-        if (instr.name == 'x' or gate.name == 'x'):
-            if len(new_qubits) != 1:
-                raise QiskitError("Invalid qubits for 1-qubit gate x.")
-            elem.flip(new_qubits[0])
-
-        elif (instr.name == 'z' or gate.name == 'z'):
-            if len(new_qubits) != 1:
-                raise QiskitError("Invalid qubits for 1-qubit gate z.")
-            elem.phase(4, new_qubits[0])
-
-        elif (instr.name == 'y' or gate.name == 'y'):
-            if len(new_qubits) != 1:
-                raise QiskitError("Invalid qubits for 1-qubit gate y.")
-            elem.flip(new_qubits[0])
-            elem.phase(4, new_qubits[0])
-
-        elif (instr.name == 'u1' or gate.name == 'u1'):
-            if (len(new_qubits) != 1 or len(instr.params) != 1):
-                raise QiskitError("Invalid qubits or params for 1-qubit gate u1.")
-            elem.phase(int(4 * instr.params[0] / np.pi), new_qubits[0])
-
-        elif (instr.name == 'cx' or gate.name == 'cx'):
-            if len(new_qubits) != 2:
-                raise QiskitError("Invalid qubits for 2-qubit gate cx.")
-            elem.cnot(new_qubits[0], new_qubits[1])
-
-        elif (instr.name == 'cz' or gate.name == 'cz'):
-            if len(new_qubits) != 2:
-                raise QiskitError("Invalid qubits for 2-qubit gate cz.")
-            elem.phase(7, new_qubits[1])
-            elem.phase(7, new_qubits[0])
-            elem.cnot(new_qubits[1], new_qubits[0])
-            elem.phase(2, new_qubits[0])
-            elem.cnot(new_qubits[1], new_qubits[0])
-            elem.phase(7, new_qubits[1])
-            elem.phase(7, new_qubits[0])
-
-        elif (instr.name == 'id' or gate.name == 'id'):
-            pass
-
-        else:
-            raise QiskitError('Not a CNOT-Dihedral gate: {}'.format(gate.name))
+        append_circuit(elem, instr, new_qubits)
 
     return elem
 
-- 
2.43.0


From 8bee9c3fcf32e954967e04d7bb76baa37e72f200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:32 +0000
Subject: [PATCH 14/63] fix: CNOTDihedral could not be built from another
 CNOTDihedral

---
 qiskit/ignis/verification/randomized_benchmarking/dihedral.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index bd770ab..a9caf43 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -358,6 +358,7 @@ class CNOTDihedral(BaseOperator):
         # Initialize from another CNOTDihedral by sharing the underlying
         # poly, linear and shift
         if isinstance(data, CNOTDihedral):
+            self._num_qubits = data.num_qubits
             self.linear = data.linear
             self.shift = data.shift
             self.poly = data.poly
-- 
2.43.0


From 177c6c028654378fbccf4fb232f0504b4e1e47d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:32 +0000
Subject: [PATCH 15/63] fix: composed CNOTDihedral elements could not be
 validated

---
 .../verification/randomized_benchmarking/dihedral.py      | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index a9caf43..f0bc5ee 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -423,8 +423,7 @@ class CNOTDihedral(BaseOperator):
         if self.num_qubits != other.num_qubits:
             raise QiskitError("Multiplication on different number of qubits.")
         result = CNOTDihedral(self.num_qubits)
-        result.shift = [(x[0] + x[1]) % 2
-                        for x in zip(self._z2matvecmul(self.linear, other.shift), self.shift)]
+        result.shift = (self._z2matvecmul(self.linear, other.shift) + self.shift) % 2
         result.linear = self._z2matmul(self.linear, other.linear)
         # Compute x' = B1*x + c1 using the p_j identity
         new_vars = []
@@ -445,10 +444,7 @@ class CNOTDihedral(BaseOperator):
         if self.num_qubits != other.num_qubits:
             raise QiskitError("Multiplication on different number of qubits.")
         result = CNOTDihedral(self.num_qubits)
-        result.shift = [(x[0] + x[1]) % 2
-                        for x in zip(self._z2matvecmul(other.linear,
-                                                       self.shift),
-                                     other.shift)]
+        result.shift = (self._z2matvecmul(other.linear, self.shift) + other.shift) % 2
         result.linear = self._z2matmul(other.linear, self.linear)
         # Compute x' = B1*x + c1 using the p_j identity
         new_vars = []
-- 
2.43.0


From 49e3bb5f1f194dee7459930dd01bc3ba14163b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:32 +0000
Subject: [PATCH 16/63] fix: RBgroup rejected the group names NonClifford and
 CNOTDihedral

---
 qiskit/ignis/verification/randomized_benchmarking/rb_groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py b/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py
index 7b333a5..4566634 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/rb_groups.py
@@ -37,7 +37,7 @@ class RBgroup():
                                                   'clifford'):
             self._rb_group = Clifford
         elif group_gates in ('1', 'Non-Clifford',
-                             'NonClifford'
+                             'NonClifford',
                              'CNOTDihedral',
                              'CNOT-Dihedral'):
             self._rb_group = CNOTDihedral
-- 
2.43.0


From b5e0fad8fff8eacab3fd1a4cbb3b8a3e7736e57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:57 +0000
Subject: [PATCH 17/63] fix: RB sequences ignored rand_seed=0 and failed for a
 RandomState rand_seed

---
 .../ignis/verification/randomized_benchmarking/circuits.py  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/circuits.py b/qiskit/ignis/verification/randomized_benchmarking/circuits.py
index e91ee38..b452671 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/circuits.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/circuits.py
@@ -417,6 +417,10 @@ def randomized_benchmarking_seq(nseeds: int = 1,
     circuits_purity = [[[] for d in range(npurity)]
                        for e in range(nseeds)]
 
+    # a generator only provides the initial seed
+    if isinstance(rand_seed, RandomState):
+        rand_seed = rand_seed.randint(2**31 - 1)
+
     # go through for each seed
     for seed in range(nseeds):
         qr = qiskit.QuantumRegister(n_q_max+1, 'qr')
@@ -441,7 +445,7 @@ def randomized_benchmarking_seq(nseeds: int = 1,
 
                 for _ in range(length_multiplier[rb_pattern_index]):
                     # make the seed unique for each element
-                    if rand_seed:
+                    if rand_seed is not None:
                         rand_seed += (seed + 1)
                     new_elmnt = rb_group.random(rb_q_num, rand_seed)
                     Elmnts[rb_pattern_index] = rb_group.compose(
-- 
2.43.0


From 63dacd0f222517e2624f1b06b0290a0b350a8138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:57 +0000
Subject: [PATCH 18/63] fix: purity RB failed with the documented
 length_multiplier=None

---
 qiskit/ignis/verification/randomized_benchmarking/circuits.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/circuits.py b/qiskit/ignis/verification/randomized_benchmarking/circuits.py
index b452671..979757f 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/circuits.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/circuits.py
@@ -62,6 +62,8 @@ def handle_length_multiplier(length_multiplier, len_pattern,
         if length_multiplier.dtype != 'int' or (length_multiplier < 1).any():
             raise ValueError("Invalid length multiplier")
     else:
+        if length_multiplier is None:
+            length_multiplier = 1
         length_multiplier = np.ones(len_pattern, dtype='int')*length_multiplier
 
     return length_multiplier
-- 
2.43.0


From 3f7825fb212e02ae9d1c1282e6cc152a82a01b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:00 +0000
Subject: [PATCH 19/63] fix: SpecialPolynomial could not be evaluated on bits

---
 qiskit/ignis/verification/randomized_benchmarking/dihedral.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index f0bc5ee..1bc36d4 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -165,7 +165,7 @@ class SpecialPolynomial():
             if False in [i.n_vars == self.n_vars for i in xval]:
                 raise QiskitError("Evaluate on incompatible polynomials.")
         else:
-            xval = xval % 2
+            xval = [x % 2 for x in xval]
         # Examine each term of this polynomial
         terms0 = [[]]
         terms1 = list(combinations(range(self.n_vars), r=1))
@@ -184,7 +184,7 @@ class SpecialPolynomial():
             value = self.get_term(term)
             if value != 0:
                 newterm = reduce(mul, [xval[j] for j in term], start)
-                result = result + value * newterm
+                result = result + int(value) * newterm
         if isinstance(result, int):
             result = result % 8
         return result
-- 
2.43.0


From c375918ca2fd881d8c4bf9789f411e1725e5749b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:37 +0000
Subject: [PATCH 20/63] fix: CNOTDihedral could not be built from a ScalarOp

---
 qiskit/ignis/verification/randomized_benchmarking/dihedral.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index 1bc36d4..4415faa 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -365,8 +365,7 @@ class CNOTDihedral(BaseOperator):
 
         # Initialize from ScalarOp as N-qubit identity discarding any global phase
         elif isinstance(data, ScalarOp):
-            if not data.is_unitary() or set(data._input_dims) != {2} or \
-                    data.num_qubits is None:
+            if not data.is_unitary() or not data.num_qubits:
                 raise QiskitError("Can only initialize from N-qubit identity ScalarOp.")
             self._num_qubits = data.num_qubits
             # phase polynomial
-- 
2.43.0


From 739a197149d7ac2d41f9dc5c34509c98743dd38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:40 +0000
Subject: [PATCH 21/63] fix: PurityRBFitter.cliff_lengths recursed forever

---
 qiskit/ignis/verification/randomized_benchmarking/fitters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 5876991..e2a348a 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -825,7 +825,7 @@ class PurityRBFitter(RBFitterBase):
     @property
     def cliff_lengths(self):
         """Return clifford lengths."""
-        return self.cliff_lengths
+        return self._cliff_lengths
 
     @property
     def ydata(self):
-- 
2.43.0


From 51b6f4f43f4a20a7a2b93317c446aa1c80030eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:40 +0000
Subject: [PATCH 22/63] fix: interleaved and CNOT-dihedral RB fitters failed
 for the default pattern

---
 qiskit/ignis/verification/randomized_benchmarking/fitters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index e2a348a..54ccf52 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -514,6 +514,8 @@ class InterleavedRBFitter(RBFitterBase):
                 is the number of patterns, j is the number of cliffords lengths.
             rb_pattern (list): the pattern for the RB sequences.
         """
+        if rb_pattern is None:
+            rb_pattern = [[0]]
 
         self._cliff_lengths = cliff_lengths
         self._rb_pattern = rb_pattern
@@ -1174,6 +1176,9 @@ class CNOTDihedralRBFitter(RBFitterBase):
             rb_pattern (list): the pattern for the RB sequences.
         """
 
+        if rb_pattern is None:
+            rb_pattern = [[0]]
+
         # Initialize a new CNOTDihedralRBFitter.
         self._cliff_lengths = elmnts_lengths
         self._rb_pattern = rb_pattern
-- 
2.43.0


From 0ccca976022c7c9a2cc359ac19edc5d1960e7209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:40 +0000
Subject: [PATCH 23/63] fix: RB fitters counted their initial results twice

---
 .../ignis/verification/randomized_benchmarking/fitters.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 54ccf52..40c2da7 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -526,9 +526,6 @@ class InterleavedRBFitter(RBFitterBase):
         self._rbfit_interleaved = RBFitter(
             interleaved_result, cliff_lengths, rb_pattern)
 
-        self.rbfit_std.add_data(original_result)
-        self.rbfit_int.add_data(interleaved_result)
-
         if not (original_result is None and interleaved_result is None):
             self.fit_data()
 
@@ -810,7 +807,7 @@ class PurityRBFitter(RBFitterBase):
         self.add_zdict_ops()
 
         # rb purity fitter
-        self._rbfit_purity = RBFitter(purity_result, cliff_lengths,
+        self._rbfit_purity = RBFitter(None, cliff_lengths,
                                       rb_pattern)
         self.add_data(purity_result)
 
@@ -1189,9 +1186,6 @@ class CNOTDihedralRBFitter(RBFitterBase):
         self._rbfit_X = RBFitter(
             cnotdihedral_X_result, elmnts_lengths, rb_pattern)
 
-        self.rbfit_Z.add_data(cnotdihedral_Z_result)
-        self.rbfit_X.add_data(cnotdihedral_X_result)
-
         if not (cnotdihedral_Z_result is None and
                 cnotdihedral_X_result is None):
             self.fit_data()
-- 
2.43.0


From a19849d32b94b10f96ad12cc8d96871e1c7037cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:40 +0000
Subject: [PATCH 24/63] fix: PurityRBFitter assigned data to rotations by the
 order of the results

---
 .../verification/randomized_benchmarking/fitters.py  | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 40c2da7..2d9a35b 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -920,7 +920,7 @@ class PurityRBFitter(RBFitterBase):
         if new_purity_result is None:
             return
 
-        self.rbfit_pur.add_data(new_purity_result, rerun_fit)
+        self.rbfit_pur.add_data(new_purity_result, rerun_fit=False)
 
         if rerun_fit:
             self.calc_data()
@@ -942,16 +942,18 @@ class PurityRBFitter(RBFitterBase):
         """
         circ_counts = {}
         circ_shots = {}
-        result_count = 0
+
+        # The circuit names before the rotations of the single qubits
+        circ_name_prefix = self.rbfit_pur.results[0].results[0].header.name. \
+            split("_purity_")[0] + '_purity_'
 
         # Calculating the result output
         for _, seed in enumerate(self.rbfit_pur.seeds):
 
             for pur in range(self._npurity):
 
-                self._circ_name_type = self.rbfit_pur.results[
-                    result_count].results[0].header.name.split("_length")[0]
-                result_count += 1
+                self._circ_name_type = circ_name_prefix + ''.join(
+                    'ZXY'[(pur // 3 ** i) % 3] for i in range(self._nq))
 
                 for circ, _ in enumerate(self._cliff_lengths[0]):
                     circ_name = self._circ_name_type + '_length_%d_seed_%d' \
-- 
2.43.0


From d15931b8e6c756d8b48e697322da6fb14ac48c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:40 +0000
Subject: [PATCH 25/63] fix: RB fit failed when the guessed parameters were out
 of bounds

---
 .../ignis/verification/randomized_benchmarking/fitters.py   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/fitters.py b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
index 2d9a35b..a0b4f16 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/fitters.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/fitters.py
@@ -422,12 +422,12 @@ class RBFitter(RBFitterBase):
             dy = ((y1 - fit_guess[2]) /
                   (y0 - fit_guess[2]))
             alpha_guess = dy**(1/dcliff)
-            if alpha_guess < 1.0:
+            if 0.0 < alpha_guess < 1.0:
                 fit_guess[1] = alpha_guess
 
             if y0 > fit_guess[2]:
-                fit_guess[0] = ((y0 - fit_guess[2]) /
-                                fit_guess[1]**self._cliff_lengths[patt_ind][0])
+                fit_guess[0] = min(1.0, (y0 - fit_guess[2]) /
+                                   fit_guess[1]**self._cliff_lengths[patt_ind][0])
 
             self.fit_data_pattern(patt_ind, tuple(fit_guess))
 
-- 
2.43.0


From a0b6d48c16d407453fd7dfd90cf949cb7dcc72e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:43 +0000
Subject: [PATCH 26/63] fix: gates_per_clifford merged the qubits of different
 registers

---
 qiskit/ignis/verification/randomized_benchmarking/rb_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/rb_utils.py b/qiskit/ignis/verification/randomized_benchmarking/rb_utils.py
index 6c5f405..06a0dd1 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/rb_utils.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/rb_utils.py
@@ -144,10 +144,12 @@ def gates_per_clifford(
         else:
             for transpiled_circuit in transpiled_circuits:
                 if isinstance(transpiled_circuit, QuantumCircuit):
+                    qubit_indices = {qubit: index for index, qubit
+                                     in enumerate(transpiled_circuit.qubits)}
                     for instr, qregs, _ in transpiled_circuit.data:
                         for qreg in qregs:
                             try:
-                                ngates[qreg.index][instr.name] += 1
+                                ngates[qubit_indices[qreg]][instr.name] += 1
                             except KeyError:
                                 pass
                 else:
-- 
2.43.0


From e347de6baaa90b99b7ad719f2465db6dd1cec934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:43 +0000
Subject: [PATCH 27/63] fix: 2Q error conversions did not report missing qubits

---
 .../verification/randomized_benchmarking/rb_utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/rb_utils.py b/qiskit/ignis/verification/randomized_benchmarking/rb_utils.py
index 06a0dd1..7eff3fb 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/rb_utils.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/rb_utils.py
@@ -457,11 +457,13 @@ def calculate_2q_epg(gate_per_cliff: Dict[int, Dict[str, float]],
     if len(qubit_pair) != 2:
         raise QiskitError('Number of qubit is not 2.')
 
+    for qubit in qubit_pair:
+        if qubit not in gate_per_cliff:
+            raise QiskitError('Qubit %d is not included in the `gate_per_cliff`' % qubit)
+
     # estimate single qubit gate error contribution
     alpha_1q = [1.0, 1.0]
     for ind, (qubit, epg_1q) in enumerate(zip(qubit_pair, list_epgs_1q)):
-        if qubit not in gate_per_cliff:
-            raise QiskitError('Qubit %d is not included in the `gate_per_cliff`' % qubit)
         gpc_per_qubit = gate_per_cliff[qubit]
         for gate_name, epg in epg_1q.items():
             n_gate = gpc_per_qubit.get(gate_name, 0)
@@ -618,6 +620,10 @@ def calculate_2q_epc(gate_per_cliff: Dict[int, Dict[str, float]],
     if len(qubit_pair) != 2:
         raise QiskitError('Number of qubit is not 2.')
 
+    for qubit in qubit_pair:
+        if qubit not in gate_per_cliff:
+            raise QiskitError('Qubit %d is not included in the `gate_per_cliff`' % qubit)
+
     n_gate_2q = gate_per_cliff[qubit_pair[0]].get(two_qubit_name, 0)
     if n_gate_2q == 0:
         raise QiskitError('Two qubit gate %s is not included in the `gate_per_cliff`. '
@@ -627,8 +633,6 @@ def calculate_2q_epc(gate_per_cliff: Dict[int, Dict[str, float]],
     alpha_1q = [1.0, 1.0]
     alpha_2q = (1 - 4 / 3 * epg_2q) ** n_gate_2q
     for ind, (qubit, epg_1q) in enumerate(zip(qubit_pair, list_epgs_1q)):
-        if qubit not in gate_per_cliff:
-            raise QiskitError('Qubit %d is not included in the `gate_per_cliff`' % qubit)
         gpc_per_qubit = gate_per_cliff[qubit]
         for gate_name, epg in epg_1q.items():
             n_gate = gpc_per_qubit.get(gate_name, 0)
-- 
2.43.0


From 96fcdbf31dc4e3b85fd487d9a4bb04271de0d04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:05 +0000
Subject: [PATCH 28/63] fix: qv_circuits measured permuted qubit lists in the
 wrong order and ignored some lists

---
 .../ignis/verification/quantum_volume/circuits.py  | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/qiskit/ignis/verification/quantum_volume/circuits.py b/qiskit/ignis/verification/quantum_volume/circuits.py
index 4f0a8b8..dae87bb 100644
--- a/qiskit/ignis/verification/quantum_volume/circuits.py
+++ b/qiskit/ignis/verification/quantum_volume/circuits.py
@@ -23,7 +23,7 @@ import warnings
 import numpy as np
 
 from qiskit.circuit.library import QuantumVolume
-from qiskit.circuit.quantumcircuit import QuantumCircuit
+from qiskit.circuit import ClassicalRegister, QuantumCircuit, QuantumRegister
 
 
 def qv_circuits(qubit_lists, ntrials=1,
@@ -89,12 +89,12 @@ def qv_circuits(qubit_lists, ntrials=1,
             qc2 = copy.deepcopy(qv_circ)
             # TODO: Remove this when we remove support for doing pseudo-layout
             # via qubit lists
-            if n_q_max != depth:
-                qc = QuantumCircuit(int(n_q_max + 1))
-                qc.compose(qv_circ, qubit_lists[depthidx], inplace=True)
-            else:
-                qc = qv_circ
-            qc.measure_active()
+            qc = QuantumCircuit(QuantumRegister(int(n_q_max + 1), 'q'),
+                                ClassicalRegister(depth, 'measure'))
+            qc.compose(qv_circ, qubit_lists[depthidx], inplace=True)
+            qc.barrier()
+            # qubit i of the ideal circuit is measured into classical bit i
+            qc.measure(qubit_lists[depthidx], list(range(depth)))
             qc.name = 'qv_depth_%d_trial_%d' % (depth, trial)
             qc2.name = qc.name
 
-- 
2.43.0


From 0977798b09404ccbc1b1859161617c57ae2a0b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:05 +0000
Subject: [PATCH 29/63] fix: qv_circuits ignored seed=0

---
 qiskit/ignis/verification/quantum_volume/circuits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/quantum_volume/circuits.py b/qiskit/ignis/verification/quantum_volume/circuits.py
index dae87bb..c763263 100644
--- a/qiskit/ignis/verification/quantum_volume/circuits.py
+++ b/qiskit/ignis/verification/quantum_volume/circuits.py
@@ -72,7 +72,7 @@ def qv_circuits(qubit_lists, ntrials=1,
                               DeprecationWarning)
     depth_list = [len(qubit_list) for qubit_list in qubit_lists]
 
-    if seed:
+    if seed is not None:
         rng = np.random.default_rng(seed)
     else:
         _seed = None
@@ -83,7 +83,7 @@ def qv_circuits(qubit_lists, ntrials=1,
     for trial in range(ntrials):
         for depthidx, depth in enumerate(depth_list):
             n_q_max = np.max(qubit_lists[depthidx])
-            if seed:
+            if seed is not None:
                 _seed = rng.integers(1000)
             qv_circ = QuantumVolume(depth, depth, seed=_seed)
             qc2 = copy.deepcopy(qv_circ)
-- 
2.43.0


From 0d5a4c4aa5abe89adc9e34ede65651e2926624ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:05 +0000
Subject: [PATCH 30/63] fix: QVFitter kept results it had rejected

---
 qiskit/ignis/verification/quantum_volume/fitters.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/verification/quantum_volume/fitters.py b/qiskit/ignis/verification/quantum_volume/fitters.py
index 42032f8..51cf4b2 100644
--- a/qiskit/ignis/verification/quantum_volume/fitters.py
+++ b/qiskit/ignis/verification/quantum_volume/fitters.py
@@ -170,6 +170,12 @@ class QVFitter:
         if not isinstance(new_backend_result, list):
             new_backend_result = [new_backend_result]
 
+        for result in new_backend_result:
+            for qvcirc in result.results:
+                if qvcirc.header.name not in self._heavy_output_prob_ideal:
+                    raise QiskitError('Ideal distribution '
+                                      'must be loaded first')
+
         for result in new_backend_result:
             self._result_list.append(result)
 
@@ -180,10 +186,6 @@ class QVFitter:
                 if (ntrials_circ+1) > self._ntrials:
                     self._ntrials = ntrials_circ+1
 
-                if qvcirc.header.name not in self._heavy_output_prob_ideal:
-                    raise QiskitError('Ideal distribution '
-                                      'must be loaded first')
-
         if rerun_fit:
             self.calc_data()
             self.calc_statistics()
-- 
2.43.0


From 13545cad3a7fae2812a10bc9230204240856e8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:17 +0000
Subject: [PATCH 31/63] fix: one-time pad corrected the wrong classical bits

The post-processing string was the list of Paulis of the qubits, whatever
classical bits they are measured to, so circuits with permuted or partial
measurements (or a coupling map) were corrected wrongly.
---
 qiskit/ignis/verification/accreditation/qotp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/verification/accreditation/qotp.py b/qiskit/ignis/verification/accreditation/qotp.py
index bfd82a7..1dc1b7d 100644
--- a/qiskit/ignis/verification/accreditation/qotp.py
+++ b/qiskit/ignis/verification/accreditation/qotp.py
@@ -213,8 +213,11 @@ def QOTP_fromlayers(layers, rng):
     temp_circ = transpile(temp_circ,
                           basis_gates=['u1', 'u2', 'u3'])
     qotp_circ = qotp_circ+temp_circ
-    # post operations
-    qotp_postp = np.flip(paulixs)
+    # post operations, on the classical bits the qubits are measured to
+    qotp_postp = np.zeros(len(cregs), dtype=int)
+    for _, qsub, csub in layers['measlayer']:
+        qotp_postp[csub[0].index] = paulixs[qsub[0].index]
+    qotp_postp = np.flip(qotp_postp)
     # measurements
     qotp_circ = qotp_circ+layers['measlayer']
     return qotp_circ, qotp_postp
-- 
2.43.0


From eed01f4fdb1700414347015327b2ae8ba152dd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:18 +0000
Subject: [PATCH 32/63] fix: layer_parser moved mid-circuit measurements and
 broke conditionals

Gates after a measurement were silently moved before it and conditional
gates kept in padded layers; such circuits are not of the accepted form.
---
 qiskit/ignis/verification/accreditation/qotp.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qiskit/ignis/verification/accreditation/qotp.py b/qiskit/ignis/verification/accreditation/qotp.py
index 1dc1b7d..0da4a79 100644
--- a/qiskit/ignis/verification/accreditation/qotp.py
+++ b/qiskit/ignis/verification/accreditation/qotp.py
@@ -63,12 +63,19 @@ def layer_parser(circ, two_qubit_gate='cx', coupling_map=None):
     measlayer = QuantumCircuit(qregs, cregs)
     # some flags for simplicity
     current2qs = []
+    measured = set()
     # loop through circuit (best to use the dag object)
     dag_internal = circuit_to_dag(circ_internal)
     for dag_layer in dag_internal.layers():
         circuit_layer = dag_to_circuit(dag_layer['graph'])
         for circelem, qsub, csub in circuit_layer:
             n = circelem.name
+            if circelem.condition is not None:
+                raise QiskitError("Conditional circuit element {0}".format(n)
+                                  + " is not implemented in qotp")
+            if n not in ("barrier", "measure") and measured.intersection(qsub):
+                raise QiskitError("Circuit element {0}".format(n)
+                                  + " after a measurement is not implemented in qotp")
             if n == "barrier":
                 # if a barrier separates any two qubit gates
                 # start a new layer
@@ -109,6 +116,7 @@ def layer_parser(circ, two_qubit_gate='cx', coupling_map=None):
                 current2qs.append(q_1)
             elif n == "measure":
                 measlayer.append(circelem, qsub, csub)
+                measured.update(qsub)
             else:
                 raise QiskitError("Circuit element {0}".format(n)
                                   + " is not implemented in qotp")
-- 
2.43.0


From 25e54709a3b5e1163c6681ec7c4ac458a1be9c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:18 +0000
Subject: [PATCH 33/63] fix: barriers of the target distinguished it from the
 traps

The target's barriers were kept in its one-qubit layers while the traps
have none there, so the target could be told apart.
---
 qiskit/ignis/verification/accreditation/qotp.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/qiskit/ignis/verification/accreditation/qotp.py b/qiskit/ignis/verification/accreditation/qotp.py
index 0da4a79..8da1c8b 100644
--- a/qiskit/ignis/verification/accreditation/qotp.py
+++ b/qiskit/ignis/verification/accreditation/qotp.py
@@ -83,7 +83,6 @@ def layer_parser(circ, two_qubit_gate='cx', coupling_map=None):
                     singlequbitlayers.append(QuantumCircuit(qregs, cregs))
                     twoqubitlayers.append(QuantumCircuit(qregs, cregs))
                     current2qs = []
-                singlequbitlayers[-2].append(circelem, qsub, csub)
             elif n in ('u1', 'u2', 'u3'):
                 # single qubit gate
                 q = qsub[0]
-- 
2.43.0


From eda18fd8f1ca1e92c9106c1b82bc5c45e36a2aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:47 +0000
Subject: [PATCH 34/63] fix: accreditation fitters shared their list of outputs

The list was an attribute of the class, so the accepted outputs of one
fitter appeared in every other one.
---
 .../verification/accreditation/fitters.py      | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index 6bbdda2..f699de7 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -38,15 +38,15 @@ class AccreditationFitter:
     https://iopscience.iop.org/article/10.1088/1367-2630/ab4fd6
     """
 
-    bound = 1
-    confidence = 1
-    N_acc = 0
-    num_runs = 0
-    flag = 'accepted'
-    outputs = []
-    num_runs = 0
-    num_traps = 0
-    g_num = 1
+    def __init__(self):
+        self.bound = 1
+        self.confidence = 1
+        self.N_acc = 0
+        self.num_runs = 0
+        self.flag = 'accepted'
+        self.outputs = []
+        self.num_traps = 0
+        self.g_num = 1
 
     def single_protocol_run(self, results, postp_list, v_zero):
         """
-- 
2.43.0


From b48d02c2ddc823b90f60ff8025ded998d2946abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:47 +0000
Subject: [PATCH 35/63] fix: the accreditation fitter did not reject
 inconsistent runs

The errors were created but never raised: runs with too few or a different
number of traps, or with several shots, were counted.
---
 .../verification/accreditation/fitters.py     | 38 +++++++++++--------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index f699de7..a7d14ff 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -56,20 +56,21 @@ class AccreditationFitter:
             results (Result): results of the quantum job
             postp_list (list): list of strings used to post-process outputs
             v_zero (int): position of target
-        """
-        self.num_runs = self.num_runs + 1
-        self.flag = 'accepted'
 
+        Raises:
+            QiskitError: if the run does not have single shot data of the
+                same number of traps (at least 3) as the earlier runs
+        """
         # Check that correct number of traps is input
-        if self.num_runs == 1:
-            self.num_traps = len(postp_list)-1
-        else:
-            if len(postp_list)-1 != self.num_traps:
-                QiskitError("ERROR: Run protocol with the"
-                            "same number of traps")
-
-        if self.num_traps < 3:
-            QiskitError("ERROR: run the protocol with at least 3 traps")
+        num_traps = len(postp_list)-1
+        if self.num_runs > 0 and num_traps != self.num_traps:
+            raise QiskitError("ERROR: Run protocol with the "
+                              "same number of traps")
+        if num_traps < 3:
+            raise QiskitError("ERROR: run the protocol with at least 3 traps")
+        if not 0 <= v_zero <= num_traps:
+            raise QiskitError("ERROR: position of the target out of range")
+
         allcounts = []
         for ind, postp in enumerate(postp_list):
 
@@ -82,8 +83,12 @@ class AccreditationFitter:
             for countstring, val in counts.items():
                 shots += val
             if shots != 1 or countstring is None:
-                QiskitError("ERROR: not single shot data")
+                raise QiskitError("ERROR: not single shot data")
             allcounts.append(countstring)
+
+        self.num_runs = self.num_runs + 1
+        self.num_traps = num_traps
+        self.flag = 'accepted'
         for k, count in enumerate(allcounts):
             if k != v_zero:
                 # Check if trap returns correct output
@@ -102,10 +107,13 @@ class AccreditationFitter:
 
         Args:
             theta (float): number between 0 and 1
+
+        Raises:
+            QiskitError: if there is no accepted run
         """
         if self.N_acc == 0:
-            QiskitError("ERROR: Variation distance requires"
-                        "at least one accepted run")
+            raise QiskitError("ERROR: Variation distance requires "
+                              "at least one accepted run")
         if self.N_acc/self.num_runs > theta:
             self.bound = self.g_num*1.7/(self.num_traps+1)
             self.bound = self.bound/(self.N_acc/self.num_runs-theta)
-- 
2.43.0


From 94d9adf7c74f2f28bfdcf81835cfc4572886e18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:47 +0000
Subject: [PATCH 36/63] fix: accreditation reported the bound of an earlier
 state

When the acceptance does not exceed theta there is no bound, but the one
computed earlier for other runs or another theta was kept.
---
 qiskit/ignis/verification/accreditation/fitters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit/ignis/verification/accreditation/fitters.py b/qiskit/ignis/verification/accreditation/fitters.py
index a7d14ff..d82b455 100644
--- a/qiskit/ignis/verification/accreditation/fitters.py
+++ b/qiskit/ignis/verification/accreditation/fitters.py
@@ -114,6 +114,8 @@ class AccreditationFitter:
         if self.N_acc == 0:
             raise QiskitError("ERROR: Variation distance requires "
                               "at least one accepted run")
+        self.bound = 1
+        self.confidence = 1
         if self.N_acc/self.num_runs > theta:
             self.bound = self.g_num*1.7/(self.num_traps+1)
             self.bound = self.bound/(self.N_acc/self.num_runs-theta)
-- 
2.43.0


From 79430656276e4d4e4e65cb3b29b08098dd1aa949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:23 +0000
Subject: [PATCH 37/63] fix: zz_circuits failed for a plain list of gate
 numbers

A list multiplied by a float raises, and by an integer gate time silently
repeats the list.
---
 qiskit/ignis/characterization/hamiltonian/circuits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/characterization/hamiltonian/circuits.py b/qiskit/ignis/characterization/hamiltonian/circuits.py
index 0f112e1..b554c5b 100644
--- a/qiskit/ignis/characterization/hamiltonian/circuits.py
+++ b/qiskit/ignis/characterization/hamiltonian/circuits.py
@@ -56,7 +56,7 @@ def zz_circuits(num_of_gates, gate_time, qubits, spectators, nosc=5):
         if qubit in spectators:
             raise ValueError("Qubits and spectators must be different")
 
-    xdata = gate_time * num_of_gates
+    xdata = gate_time * np.array(num_of_gates)
 
     qr = qiskit.QuantumRegister(max([max(qubits), max(spectators)])+1)
     cr = qiskit.ClassicalRegister(len(qubits))
-- 
2.43.0


From 29c2b15d731f14e6784a29741b9f0d3ba667f1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:23 +0000
Subject: [PATCH 38/63] fix: shared spectator and control qubits were flipped
 back

A spectator (or control) listed for two qubits got one X gate for each of
them, so it ended in the ground state.
---
 qiskit/ignis/characterization/gates/circuits.py       | 6 ++++--
 qiskit/ignis/characterization/hamiltonian/circuits.py | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/characterization/gates/circuits.py b/qiskit/ignis/characterization/gates/circuits.py
index 02e4198..389204b 100644
--- a/qiskit/ignis/characterization/gates/circuits.py
+++ b/qiskit/ignis/characterization/gates/circuits.py
@@ -159,7 +159,8 @@ def ampcal_cx_circuits(max_reps, qubits, control_qubits):
         circ = qiskit.QuantumCircuit(qr, cr)
         circ.name = 'ampcalcxcircuit_' + str(circ_index) + '_0'
         for qind, qubit in enumerate(qubits):
-            circ.x(qr[control_qubits[qind]])
+            if control_qubits[qind] not in control_qubits[:qind]:
+                circ.x(qr[control_qubits[qind]])
             circ.append(U2Gate(-np.pi/2, np.pi/2), [qr[qubit]])  # X90p
             for _ in range(circ_length):
                 circ.barrier([qr[control_qubits[qind]], qr[qubit]])
@@ -214,7 +215,8 @@ def anglecal_cx_circuits(max_reps, qubits, control_qubits, angleerr=0.0):
         circ = qiskit.QuantumCircuit(qr, cr)
         circ.name = 'anglecalcxcircuit_' + str(circ_index) + '_0'
         for qind, qubit in enumerate(qubits):
-            circ.x(qr[control_qubits[qind]])
+            if control_qubits[qind] not in control_qubits[:qind]:
+                circ.x(qr[control_qubits[qind]])
             circ.append(U2Gate(0.0, 0.0), [qr[qubit]])  # Y90p (target)
             for _ in range(circ_length):
                 if angleerr != 0:
diff --git a/qiskit/ignis/characterization/hamiltonian/circuits.py b/qiskit/ignis/characterization/hamiltonian/circuits.py
index b554c5b..72e9096 100644
--- a/qiskit/ignis/characterization/hamiltonian/circuits.py
+++ b/qiskit/ignis/characterization/hamiltonian/circuits.py
@@ -69,7 +69,7 @@ def zz_circuits(num_of_gates, gate_time, qubits, spectators, nosc=5):
         for circ_index, circ_length in enumerate(num_of_gates):
             circ = qiskit.QuantumCircuit(qr, cr)
             circ.name = 'zzcircuit_' + str(circ_index) + '_%d' % qflip
-            for _, qspec in enumerate(spectators):
+            for qspec in sorted(set(spectators)):
                 if qflip:
                     circ.x(qr[qspec])
             circ.barrier(qr)
-- 
2.43.0


From 5f7aa8a70bf9618f61525c0e6e36b8d9209dd45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:25 +0000
Subject: [PATCH 39/63] fix: expected states could not be read off Schedule
 objects

---
 qiskit/ignis/measurement/discriminator/discriminators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/measurement/discriminator/discriminators.py b/qiskit/ignis/measurement/discriminator/discriminators.py
index 4a2c919..a4473cd 100644
--- a/qiskit/ignis/measurement/discriminator/discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/discriminators.py
@@ -241,7 +241,7 @@ class BaseDiscriminationFitter(ABC):
         """
         expected_states = []
         for schedule in schedules:
-            if isinstance(schedules, Schedule):
+            if isinstance(schedule, Schedule):
                 name = schedule.name
             else:
                 name = schedule
-- 
2.43.0


From 471517660d8c580994569fc4032350488d34b19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:25 +0000
Subject: [PATCH 40/63] fix: adding data to a discriminator discarded the
 earlier data

add_data retrained the discriminator on the new schedules only, kept results
it rejected, and extended the list of schedules of the caller.
---
 .../ignis/measurement/discriminator/discriminators.py  | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/measurement/discriminator/discriminators.py b/qiskit/ignis/measurement/discriminator/discriminators.py
index a4473cd..c5d1e55 100644
--- a/qiskit/ignis/measurement/discriminator/discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/discriminators.py
@@ -70,7 +70,7 @@ class BaseDiscriminationFitter(ABC):
         self._standardize = standardize
         self._scaler = None
         self._qubit_mask = qubit_mask
-        self._schedules = schedules
+        self._schedules = list(schedules)
         self._backend_result_list = []
         self._fitted = False
 
@@ -112,11 +112,13 @@ class BaseDiscriminationFitter(ABC):
         if schedules is None:
             schedules = self._get_schedules(result, 0)
 
-        self._backend_result_list.append(result)
+        xdata = self.get_xdata(result, 0, schedules)
         self._add_expected_states(expected_states, schedules)
+        ydata = self.get_ydata(result, 0, schedules)
+        self._backend_result_list.append(result)
         self._schedules.extend(schedules)
-        self._xdata = self.get_xdata(self._backend_result_list, 0, schedules)
-        self._ydata = self.get_ydata(self._backend_result_list, 0, schedules)
+        self._xdata = list(self._xdata) + list(xdata)
+        self._ydata = list(self._ydata) + list(ydata)
 
         if refit:
             self.fit()
-- 
2.43.0


From e63096b151392d40c59554bc5aee5a8a9c7f34a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:25 +0000
Subject: [PATCH 41/63] fix: discriminators failed for schedules present in
 several results

The features were taken from the last result having the schedule but the
labels from all of them, and averaged data got one label per qubit, so the
numbers of features and labels differed.
---
 .../discriminator/discriminators.py           |  6 ++--
 .../discriminator/iq_discriminators.py        | 36 ++++++++++++-------
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/qiskit/ignis/measurement/discriminator/discriminators.py b/qiskit/ignis/measurement/discriminator/discriminators.py
index c5d1e55..d2ec494 100644
--- a/qiskit/ignis/measurement/discriminator/discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/discriminators.py
@@ -309,9 +309,9 @@ class BaseDiscriminationFitter(ABC):
 
         Args:
             results: the get_memory() method is used to retrieve the level 1 data.
-                     If result is a list of Result, then the first Result in the
-                     list that returns the data of schedule
-                     (through get_memory(schedule)) is used.
+                     If result is a list of Result, then the data of schedule
+                     (through get_memory(schedule)) in every Result of the list
+                     is used.
             schedule_type_to_get: use to specify if we should return data corresponding to
                                   (``0``) calibration data only
                                   (``1``) non-calibration data
diff --git a/qiskit/ignis/measurement/discriminator/iq_discriminators.py b/qiskit/ignis/measurement/discriminator/iq_discriminators.py
index 09abba5..b18ddb6 100644
--- a/qiskit/ignis/measurement/discriminator/iq_discriminators.py
+++ b/qiskit/ignis/measurement/discriminator/iq_discriminators.py
@@ -79,9 +79,9 @@ class IQDiscriminationFitter(BaseDiscriminationFitter):
 
         Args:
             results: the get_memory() method is used to retrieve the level 1 data.
-                     If result is a list of Result, then the first Result in the
-                     list that returns the data of schedule
-                     (through get_memory(schedule)) is used.
+                     If result is a list of Result, then the data of schedule
+                     (through get_memory(schedule)) in every Result of the list
+                     is used.
             schedule_type_to_get: use to specify if we should return data corresponding to
                                   (``0``) calibration data only
                                   (``1``) non-calibration data
@@ -98,21 +98,25 @@ class IQDiscriminationFitter(BaseDiscriminationFitter):
         if schedules is None:
             schedules = self._get_schedules(results, schedule_type_to_get)
 
+        if isinstance(results, list):
+            schedules = self._unique_schedules(schedules)
+
         for schedule in schedules:
-            iq_data = None
+            iq_data = []
             if isinstance(results, list):
                 for result in results:
                     try:
-                        iq_data = result.get_memory(schedule)
+                        iq_data.append(result.get_memory(schedule))
                     except QiskitError:
                         pass
             else:
-                iq_data = results.get_memory(schedule)
+                iq_data.append(results.get_memory(schedule))
 
-            if iq_data is None:
+            if not iq_data:
                 raise PulseError('Could not find IQ data for %s' % schedule)
 
-            xdata.extend(self.format_iq_data(iq_data))
+            for data in iq_data:
+                xdata.extend(self.format_iq_data(data))
 
         return self._scale_data(xdata)
 
@@ -139,25 +143,31 @@ class IQDiscriminationFitter(BaseDiscriminationFitter):
         if schedules is None:
             schedules = self._get_schedules(results, schedule_type_to_get)
 
+        if isinstance(results, list):
+            schedules = self._unique_schedules(schedules)
+
         for schedule in schedules:
             if isinstance(schedule, Schedule):
                 shed_name = schedule.name
             else:
                 shed_name = schedule
 
-            if isinstance(results, Result):
-                results = [results]
-
-            for result in results:
+            for result in results if isinstance(results, list) else [results]:
                 try:
                     iq_data = result.get_memory(schedule)
-                    n_shots = iq_data.shape[0]
+                    n_shots = len(self.format_iq_data(iq_data))
                     ydata.extend([self._expected_state[shed_name]]*n_shots)
                 except QiskitError:
                     pass
 
         return ydata
 
+    @staticmethod
+    def _unique_schedules(schedules: Union[List[str], List[Schedule]]):
+        """Drop schedules whose name appeared before, e.g. in another result."""
+        return list({getattr(schedule, 'name', schedule): schedule
+                     for schedule in schedules}.values())
+
     def format_iq_data(self, iq_data: np.ndarray) -> List[List[float]]:
         """
         Takes IQ data obtained from get_memory(), applies the qubit mask
-- 
2.43.0


From 1f68d8255b8ce10ecfa61a636c6c4072c0dbbc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:25 +0000
Subject: [PATCH 42/63] fix: DiscriminationFilter assigned averaged data to
 wrong experiments

---
 qiskit/ignis/measurement/discriminator/filters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/measurement/discriminator/filters.py b/qiskit/ignis/measurement/discriminator/filters.py
index f855e4f..b16df26 100644
--- a/qiskit/ignis/measurement/discriminator/filters.py
+++ b/qiskit/ignis/measurement/discriminator/filters.py
@@ -76,7 +76,9 @@ class DiscriminationFilter:
         shots_per_experiment_result = []
         for result in new_results.results:
             if result.meas_level == 1:
-                shots_per_experiment_result.append(result.shots)
+                # averaged data has a single entry whatever the number of shots
+                shots_per_experiment_result.append(
+                    1 if result.meas_return == 'avg' else result.shots)
                 to_be_discriminated.append(result)
 
         new_results.results = to_be_discriminated
-- 
2.43.0


From ae1df5f01968931c4560f6a3b792b86a396f1bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:03 +0000
Subject: [PATCH 43/63] fix: raw MQC fidelity was computed from mitigated
 populations

---
 qiskit/ignis/verification/entanglement/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/entanglement/analysis.py b/qiskit/ignis/verification/entanglement/analysis.py
index 25d2034..7f77036 100644
--- a/qiskit/ignis/verification/entanglement/analysis.py
+++ b/qiskit/ignis/verification/entanglement/analysis.py
@@ -189,7 +189,7 @@ class Plotter:
             print("Upper/Lower error mitigated fidelity bounds = ",
                   round(UB_m, 3), " +/- ", round(.01*UB_m, 3), " || ",
                   round(LB_m, 3), " +/- ", round(.01*LB_m, 3))
-            (F, F_m) = (.5*(P0_m + P1_m) + np.sqrt(np.absolute(fft[qn])),
+            (F, F_m) = (.5*(P0 + P1) + np.sqrt(np.absolute(fft[qn])),
                         .5*(P0_m + P1_m) + np.sqrt(np.absolute(fft_m[qn])))
             print("Raw fidelity = ", round(F, 3), " +/- ", round(.01*F, 3))
             print("Mitigated fidelity = ", round(F_m, 3),
-- 
2.43.0


From f079b5cd779e685f272e287fde4e35db3694bf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:52 +0000
Subject: [PATCH 44/63] fix: logging configuration mangled the log file path

The configured path was lower-cased and cut at its first colon.
---
 qiskit/ignis/logging/ignis_logging.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index b4493a7..620433d 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -178,10 +178,10 @@ class IgnisLogging:
                 for line in log_file:
                     # removing comments
                     line = line[:line.find('#') if "#" in line else None]
-                    line = line.split(':')  # Splitting to key value
+                    line = line.split(':', 1)  # Splitting to key value
                     if len(line) < 2:
                         continue
-                    config[line[0].strip().lower()] = line[1].strip().lower()
+                    config[line[0].strip().lower()] = line[1].strip()
             IgnisLogging._config_file_exists = True
 
         return config
@@ -196,7 +196,7 @@ class IgnisLogging:
         log_config = IgnisLogging._load_config_file(log_config_path)
         # Reading the config file content
         IgnisLogging._file_logging_enabled = \
-            log_config.get('file_logging') == "true"
+            log_config.get('file_logging', '').lower() == "true"
         IgnisLogging._log_file = log_config.get('log_file') if \
             log_config.get('log_file') is not None else "ignis.log"
         max_size = log_config.get('max_size')
-- 
2.43.0


From 809aa4bb1f53f55fbb7d391d2700e02a0fc09ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:52 +0000
Subject: [PATCH 45/63] fix: log reader broke up values containing spaces

Values such as the documented qubits=[1,2,4] were read as several fields,
and values printed on several lines as several rows.
---
 qiskit/ignis/logging/ignis_logging.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index 620433d..2271180 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -306,6 +306,11 @@ class IgnisLogReader:
     date/time and key criteria
     """
 
+    # Start of a record: values may contain spaces and span several lines
+    _record_start = re.compile(
+        r"^(\d{4}/\d{2}/\d{2}) (\d{2}:\d{2}:\d{2}) ignis_logging ", re.M)
+    _key_value = re.compile(r"'[^']*':'.*?'(?=\s+'[^']*':'|\s*$)", re.S)
+
     def get_log_files(self) -> List[str]:
         """
         Get Names of all log files (several may be present due to logging
@@ -369,9 +374,10 @@ class IgnisLogReader:
 
         for file in files:
             with open(file, "r") as f:
-                for line in f:
-                    terms = line.split()
-                    date_time = terms[0:2]
+                records = self._record_start.split(f.read())
+                for date, time, record in zip(records[1::3], records[2::3],
+                                              records[3::3]):
+                    date_time = [date, time]
 
                     dt_filterd = self._filter_by_datetime(date_time,
                                                           from_datetime,
@@ -381,7 +387,7 @@ class IgnisLogReader:
                     if dt_filterd:
                         continue
 
-                    key_values = terms[3:]
+                    key_values = self._key_value.findall(record)
                     if keys is not None:
                         key_values = self._filter_keys(key_values, keys)
                     if not key_values:
-- 
2.43.0


From 19b5f63d246cc18079d69753f8fb2c80fb40853d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:52 +0000
Subject: [PATCH 46/63] fix: log files were misordered or not found

Files rotated within the clock resolution were returned in arbitrary order,
and file names were used as regular expressions and glob patterns.
---
 qiskit/ignis/logging/ignis_logging.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index 2271180..2a37ce4 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -314,25 +314,25 @@ class IgnisLogReader:
     def get_log_files(self) -> List[str]:
         """
         Get Names of all log files (several may be present due to logging
-        file rotation). File names are sorted by modification time.
+        file rotation). File names are sorted from the oldest to the newest.
 
         Returns:
             list: list of all log file names
         """
 
         file_name = IgnisLogging().get_log_file()
-        search_path = os.path.abspath(file_name + "*")
-        files = sorted(glob.glob(search_path), key=os.path.getmtime)
+        search_path = glob.escape(os.path.abspath(file_name)) + "*"
 
+        # The oldest file has the highest rotation number, and the file
+        # currently written to has none
         result = list()
-        m = re.compile(
-            os.path.abspath(file_name).replace('\\', r'\\') + r"$|" +
-            os.path.abspath(file_name).replace('\\', r'\\') + r".\d+$")
-        for f in files:
-            if m.match(f):
-                result.append(f)
+        m = re.compile(re.escape(os.path.abspath(file_name)) + r"(?:\.(\d+))?$")
+        for f in glob.glob(search_path):
+            match = m.match(f)
+            if match:
+                result.append((int(match.group(1) or 0), f))
 
-        return result
+        return [f for _, f in sorted(result, reverse=True)]
 
     def read_values(self, log_files: Optional[List[str]] = None,
                     keys: Optional[List[str]] = None,
-- 
2.43.0


From 468bc8cbdea4a83633840695c997e26bab72e041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:52 +0000
Subject: [PATCH 47/63] fix: several loggers lost the order of rotated log
 files

---
 qiskit/ignis/logging/ignis_logging.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index 2a37ce4..7ad6ef5 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -146,6 +146,7 @@ class IgnisLogging:
     _instance = None
     _file_logging_enabled = False
     _log_file = None
+    _file_handler = None
     _max_bytes = 0
     _max_rotations = 0
     _log_label = "ignis_logging"
@@ -212,6 +213,9 @@ class IgnisLogging:
             IgnisLogging._instance = None
             IgnisLogging._file_logging_enabled = False
             IgnisLogging._log_file = None
+            if IgnisLogging._file_handler is not None:
+                IgnisLogging._file_handler.close()
+                IgnisLogging._file_handler = None
             IgnisLogging._config_file_exists = False
             logger = logging.getLogger(name)
             if isinstance(logger, IgnisLogger):
@@ -246,6 +250,11 @@ class IgnisLogging:
         Returns:
             RotatingFileHandler: The configured RotatingFileHandler object
         """
+        # All loggers write through the same handler: a handler of its own
+        # would keep writing to a file which another one has rotated
+        if IgnisLogging._file_handler is not None:
+            return IgnisLogging._file_handler
+
         # Configuring the file handling aspect
         fh = logging.handlers.RotatingFileHandler(
             IgnisLogging._log_file, maxBytes=IgnisLogging._max_bytes,
@@ -256,6 +265,7 @@ class IgnisLogging:
             '%(asctime)s {} %(message)s'.format(IgnisLogging._log_label),
             datefmt=IgnisLogging._default_datefmt)
         fh.setFormatter(formatter)
+        IgnisLogging._file_handler = fh
 
         return fh
 
-- 
2.43.0


From d8903d2d9745a16144d6e48dadb85479878071bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:52 +0000
Subject: [PATCH 48/63] fix: messages were printed once per get_logger call

---
 qiskit/ignis/logging/ignis_logging.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index 7ad6ef5..f5755e3 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -60,6 +60,8 @@ class IgnisLogger(logging.getLoggerClass()):
             sh: StreamHandler object
             conf_file_exists: Whether or not a file config exists
         """
+        if self._stream_handler is not None:
+            self.removeHandler(self._stream_handler)
         self._stream_handler = sh
         self.addHandler(sh)
         self._conf_file_exists = conf_file_exists
-- 
2.43.0


From 0091b1c0d06e46f11e45d46120223bac1197ea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:52 +0000
Subject: [PATCH 49/63] fix: a value that cannot be printed sent later messages
 to the log file

---
 qiskit/ignis/logging/ignis_logging.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/logging/ignis_logging.py b/qiskit/ignis/logging/ignis_logging.py
index f5755e3..f8b9dde 100644
--- a/qiskit/ignis/logging/ignis_logging.py
+++ b/qiskit/ignis/logging/ignis_logging.py
@@ -93,13 +93,13 @@ class IgnisLogger(logging.getLoggerClass()):
 
         assert(self._file_handler is not None), "file_handler is not set"
 
-        # Removing the stream handler to avoid printing to console here
-        Logger.removeHandler(self, self._stream_handler)
-        Logger.addHandler(self, self._file_handler)
         logstr = ""
         for k, v in kwargs.items():
             logstr += "'{}':'{}' ".format(k, v)
 
+        # Removing the stream handler to avoid printing to console here
+        Logger.removeHandler(self, self._stream_handler)
+        Logger.addHandler(self, self._file_handler)
         Logger.log(self, 100, logstr)
 
         Logger.removeHandler(self, self._file_handler)
-- 
2.43.0


From 2a9e919107363ef85c2120378ed1b3e08f705864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:02 +0000
Subject: [PATCH 50/63] fix: SPAM matrices multiplied the gates in reverse
 order

---
 qiskit/ignis/verification/tomography/basis/gatesetbasis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/basis/gatesetbasis.py b/qiskit/ignis/verification/tomography/basis/gatesetbasis.py
index e5c94c1..6e345d7 100644
--- a/qiskit/ignis/verification/tomography/basis/gatesetbasis.py
+++ b/qiskit/ignis/verification/tomography/basis/gatesetbasis.py
@@ -221,7 +221,8 @@ class GateSetBasis:
         """
         spec = self.spam_spec[label]
         f_matrices = [self.gate_matrices[gate_label] for gate_label in spec]
-        result = functools.reduce(lambda a, b: a @ b, f_matrices)
+        # the gates are applied in the listed order, the first one rightmost
+        result = functools.reduce(lambda a, b: b @ a, f_matrices)
         return result
 
     def get_tomography_basis(self) -> TomographyBasis:
-- 
2.43.0


From b6515ae613f67278cd4236e701dae04929d15cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:02 +0000
Subject: [PATCH 51/63] fix: gate set fit failed on the shape of its initial
 value

---
 qiskit/ignis/verification/tomography/fitters/gateset_fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
index 55103d8..24fd745 100644
--- a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
@@ -283,7 +283,7 @@ class GaugeOptimize():
             The optimal gateset found by the gauge optimization
         """
         initial_value = np.array([(F @ self.rho).T[0] for F in self.Fs]).T
-        result = opt.minimize(self._obj_fn, initial_value)
+        result = opt.minimize(self._obj_fn, initial_value.flatten())
         return self._x_to_gateset(result.x)
 
 
-- 
2.43.0


From 8d165bdb8dd03ac47a3f2ef4109cd90cb33c11c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:06 +0000
Subject: [PATCH 52/63] fix: gauge optimization started from the wrong gauge

_x_to_gateset applied the inverse of the gauge matrix it was given, so the
starting point (the SPAM states) was the inverse of the ideal gauge and the
search could end in a mirrored gauge with negative states.
---
 .../ignis/verification/tomography/fitters/gateset_fitter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
index 24fd745..2b9213b 100644
--- a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
@@ -252,10 +252,10 @@ class GaugeOptimize():
             BB = np.linalg.inv(B)
         except np.linalg.LinAlgError:
             return None
-        gateset = {label: PTM(BB @ self.initial_gateset[label].data @ B)
+        gateset = {label: PTM(B @ self.initial_gateset[label].data @ BB)
                    for label in self.gateset_basis.gate_labels}
-        gateset['E'] = self.initial_gateset['E'] @ B
-        gateset['rho'] = BB @ self.initial_gateset['rho']
+        gateset['E'] = self.initial_gateset['E'] @ BB
+        gateset['rho'] = B @ self.initial_gateset['rho']
         return gateset
 
     def _obj_fn(self, x: np.array) -> float:
-- 
2.43.0


From 966b5ced129dcdc584d846e0d10e847d8b20d9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:08 +0000
Subject: [PATCH 53/63] fix: gate set fit never left its starting point

The constraints included identically zero values (the imaginary parts), so the
constraint Jacobian was singular and SLSQP stopped at once: the fit returned
its starting point, whose gates are not trace preserving.
---
 .../verification/tomography/fitters/gateset_fitter.py     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
index 2b9213b..f4c55a4 100644
--- a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
@@ -549,7 +549,8 @@ class GST_Optimize():
             the PTM representation we are using:
             1) G_{0,0} is 1 for every gate G
             2) The rest of the first row of each G is 0.
-            3) G only has real values, so imaginary part is 0.
+            (G only has real values, since its Choi matrix is Hermitian;
+            stating this as constraints would make them degenerate)
 
             For additional info, see section 3.5.2 in arXiv:1509.02921
         """
@@ -569,7 +570,6 @@ class GST_Optimize():
             for _ in range((ds - 1) * ds):  # rest of G^k
                 i += 1
             for _ in range(ds ** 2):  # the complex part of G^k
-                bounds_eq.append(ptm_matrix[i] - 0)  # G^k_{0,i} is 0
                 i += 1
         return bounds_eq
 
@@ -619,10 +619,10 @@ class GST_Optimize():
             The list of computed constraint values (should be equal 0)
 
         Additional information:
-            We demand real(Tr(rho)) == 1 and imag(Tr(rho)) == 0
+            We demand real(Tr(rho)) == 1; since rho is PSD, imag(Tr(rho)) == 0
         """
         trace = self._rho_trace(x)
-        return [trace[0] - 1, trace[1]]
+        return [trace[0] - 1]
 
     def _constraints(self) -> List[Dict]:
         """Generates the constraints for the MLE optimization
-- 
2.43.0


From 15a077702107120441a638f19236a270bfba6e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:00 +0000
Subject: [PATCH 54/63] fix: gate set fit could not represent general states
 and measurements

The positivity of E and rho was imposed on the reshaped Pauli vector instead
of the operator, so results could have negative eigenvalues, and states whose
X and Y components differ could not be represented.
---
 .../tomography/fitters/gateset_fitter.py        | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
index f4c55a4..b942dd8 100644
--- a/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
+++ b/qiskit/ignis/verification/tomography/fitters/gateset_fitter.py
@@ -429,8 +429,8 @@ class GST_Optimize():
         rho_T = self._vec_to_complex_matrix(T_vars[1])
         Gs_T = [self._vec_to_complex_matrix(T_vars[2+i]) for i in range(n)]
 
-        E = np.reshape(E_T @ np.conj(E_T.T), (1, ds))
-        rho = np.reshape(rho_T @ np.conj(rho_T.T), (ds, 1))
+        E = self._convert_to_ptm(E_T @ np.conj(E_T.T)).reshape((1, ds))
+        rho = self._convert_to_ptm(rho_T @ np.conj(rho_T.T)).reshape((ds, 1))
         Gs = [PTM(Choi(G_T @ np.conj(G_T.T))).data for G_T in Gs_T]
 
         return (E, rho, Gs)
@@ -453,10 +453,8 @@ class GST_Optimize():
             This function performs the inverse operation to
             split_input_vector; the notations are the same.
         """
-        d = (2 ** self.qubits)
-
-        E_T = get_cholesky_like_decomposition(E.reshape((d, d)))
-        rho_T = get_cholesky_like_decomposition(rho.reshape((d, d)))
+        E_T = get_cholesky_like_decomposition(self._convert_from_ptm(E))
+        rho_T = get_cholesky_like_decomposition(self._convert_from_ptm(rho))
         Gs_Choi = [Choi(PTM(G)).data for G in Gs]
         Gs_T = [get_cholesky_like_decomposition(G) for G in Gs_Choi]
         E_vec = self._complex_matrix_to_vec(E_T)
@@ -651,6 +649,13 @@ class GST_Optimize():
         v = vector.reshape(4)
         return v[0] * Id + v[1] * X + v[2] * Y + v[3] * Z
 
+    def _convert_to_ptm(self, matrix):
+        """Converts a Hermitian matrix to its PTM vector representation"""
+        return np.sqrt(0.5) * np.real([matrix[0][0] + matrix[1][1],
+                                       matrix[0][1] + matrix[1][0],
+                                       1j * (matrix[0][1] - matrix[1][0]),
+                                       matrix[0][0] - matrix[1][1]])
+
     def _process_result(self, x: np.array) -> Dict:
         """Transforms the optimization result to a friendly format
         Args:
-- 
2.43.0


From 17c035df83f170f4e67cf07ea6b97931f878da18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:18 +0000
Subject: [PATCH 55/63] fix: IQ fitters read the memory slots of other qubits

The calibration schedules measure each qubit into the memory slot of its own
index, but the fitters read the slot given by the position in the qubit list.
---
 qiskit/ignis/characterization/fitters.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/characterization/fitters.py b/qiskit/ignis/characterization/fitters.py
index 5fa8f2e..88c0608 100644
--- a/qiskit/ignis/characterization/fitters.py
+++ b/qiskit/ignis/characterization/fitters.py
@@ -480,14 +480,16 @@ class IQFitter(BaseFitter):
         self._ydata = {}
         for _, serieslbl in enumerate(self._series):
             self._ydata[serieslbl] = []
-            for qind, _ in enumerate(self._qubits):
+            for qubit in self._qubits:
                 self._ydata[serieslbl].append({'mean': [], 'std': []})
                 mean_list = self._ydata[serieslbl][-1]['mean']
                 var_list = self._ydata[serieslbl][-1]['std']
                 for circ, _ in enumerate(self._xdata):
                     circname = self._circuit_names[circ] + serieslbl
-                    mean_list.append(iq_list_mean[circname][qind])
-                    var_list.append(iq_list_var[circname][qind])
+                    # the schedules measure each qubit into the memory
+                    # slot of the same index
+                    mean_list.append(iq_list_mean[circname][qubit])
+                    var_list.append(iq_list_var[circname][qubit])
                     # problem for the fitter if one of the std points is
                     # exactly zero
                     if var_list[-1] == 0:
-- 
2.43.0


From 58deb0c59cf35da3b80645b107ecb050f19dc08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:18 +0000
Subject: [PATCH 56/63] fix: IQ fitters failed on single-shot data

The shots of all qubits were summed into one number, which was then indexed by
qubit, and results with different numbers of shots could not be combined.
---
 qiskit/ignis/characterization/fitters.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/qiskit/ignis/characterization/fitters.py b/qiskit/ignis/characterization/fitters.py
index 88c0608..d50293f 100644
--- a/qiskit/ignis/characterization/fitters.py
+++ b/qiskit/ignis/characterization/fitters.py
@@ -448,11 +448,9 @@ class IQFitter(BaseFitter):
                 else:
 
                     # data is in single shot IQ mode
-                    iq_list[sname] = (result.shots *
-                                      single_result.get_memory(sname) +
-                                      iq_list.get(sname,
-                                                  np.zeros([result.shots,
-                                                            mem_slots])))
+                    iq_list[sname] = np.concatenate(
+                        (iq_list.get(sname, np.zeros([0, mem_slots])),
+                         single_result.get_memory(sname)))
 
         for sname in iq_list:
 
@@ -460,8 +458,8 @@ class IQFitter(BaseFitter):
                 iq_list_mean[sname] = iq_list[sname]/shots_list[sname]
                 iq_list_var[sname] = np.ones(len(iq_list_mean[sname]))*1e-4
             else:
-                iq_list_mean[sname] = np.sum(iq_list[sname])/shots_list[sname]
-                iq_list_var[sname] = np.std(iq_list[sname])
+                iq_list_mean[sname] = np.mean(iq_list[sname], axis=0)
+                iq_list_var[sname] = np.std(iq_list[sname], axis=0)
 
         return iq_list_mean, iq_list_var
 
-- 
2.43.0


From 9990a3b0f8a5a5b7e73cef7694a1ab60e1f14926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:18 +0000
Subject: [PATCH 57/63] fix: IQ fitters lost the signal on falling lines

The projection line was always taken in the first quadrant, so data whose
imaginary part falls as the real part rises were cancelled instead of added.
---
 qiskit/ignis/characterization/fitters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qiskit/ignis/characterization/fitters.py b/qiskit/ignis/characterization/fitters.py
index d50293f..55d81be 100644
--- a/qiskit/ignis/characterization/fitters.py
+++ b/qiskit/ignis/characterization/fitters.py
@@ -501,6 +501,9 @@ class IQFitter(BaseFitter):
                 imag_ext = np.mean(np.abs(np.imag(mean_list)))
                 crot = real_ext/(real_ext**2+imag_ext**2)**0.5
                 srot = imag_ext/(real_ext**2+imag_ext**2)**0.5
+                if np.sum(np.real(mean_list)*np.imag(mean_list)) < 0:
+                    # the line falls towards negative imaginary values
+                    srot = -srot
                 mean_list = crot*np.real(mean_list)+srot*np.imag(mean_list)
                 self._ydata[serieslbl][-1]['mean'] = mean_list
 
-- 
2.43.0


From c98a5dc37ec331a688596c6d804d3827059c7dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:20 +0000
Subject: [PATCH 58/63] fix: CTMP calibration of a single qubit ignored its
 errors

The one-qubit rates were averaged over pairs with other qubits only; with one
qubit the average was empty and the mitigator did nothing.
---
 qiskit/ignis/mitigation/expval/ctmp_fitter.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/ctmp_fitter.py b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
index fb3ffef..df4ee70 100644
--- a/qiskit/ignis/mitigation/expval/ctmp_fitter.py
+++ b/qiskit/ignis/mitigation/expval/ctmp_fitter.py
@@ -50,7 +50,7 @@ def fit_ctmp_meas_mitigator(cal_data: Dict[int, Dict[int, int]],
 
     gen_mat_dict = {}
     for gen in generators + _supplementary_generators(generators):
-        if len(gen[2]) > 1:
+        if len(gen[2]) > 1 or num_qubits == 1:
             mat = _local_g_matrix(gen, cal_data, num_qubits)
             gen_mat_dict[gen] = mat
 
@@ -116,9 +116,9 @@ def _get_ctmp_error_rate(gen: Generator,
     """
     # pylint: disable=invalid-name
     b, a, c = gen
-    if len(b) == 1:
+    if len(b) == 1 and num_qubits > 1:
         rate = _ctmp_err_rate_1_q(a, b, c[0], g_mat_dict, num_qubits)
-    elif len(b) == 2:
+    else:
         rate = _ctmp_err_rate_2_q(gen, g_mat_dict)
     return rate
 
@@ -129,14 +129,13 @@ def _local_g_matrix(gen: Generator,
     """Computes the G(j,k) matrix in the basis [00, 01, 10, 11]."""
     # pylint: disable=invalid-name
     _, _, c = gen
-    j, k = c
-    a_mat = assignment_matrix(cal_data, num_qubits, [j, k])
+    a_mat = assignment_matrix(cal_data, num_qubits, list(c))
     g = la.logm(a_mat)
     if np.linalg.norm(np.imag(g)) > 1e-3:
         raise QiskitError('Encountered complex entries in G_i={}'.format(g))
     g = np.real(g)
-    for i in range(4):
-        for j in range(4):
+    for i in range(len(g)):
+        for j in range(len(g)):
             if i != j:
                 if g[i, j] < 0:
                     g[i, j] = 0
-- 
2.43.0


From e30cd842b501966b0340d52539d1892be3852a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:05 +0000
Subject: [PATCH 59/63] fix: expectation values ignored the order of the
 classical bits

---
 qiskit/ignis/mitigation/expval/utils.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/qiskit/ignis/mitigation/expval/utils.py b/qiskit/ignis/mitigation/expval/utils.py
index bb9bb42..26126ad 100644
--- a/qiskit/ignis/mitigation/expval/utils.py
+++ b/qiskit/ignis/mitigation/expval/utils.py
@@ -79,7 +79,7 @@ def expectation_value(counts: Counts,
 
     # Marginalize counts
     if clbits is not None:
-        counts = marginal_counts(counts, meas_qubits=clbits)
+        counts = _clbit_counts(counts, clbits)
 
     # Get counts shots and probabilities
     probs = np.array(list(counts.values()))
@@ -121,7 +121,7 @@ def counts_probability_vector(
     """
     # Marginalize counts
     if clbits is not None:
-        counts = marginal_counts(counts, meas_qubits=clbits)
+        counts = _clbit_counts(counts, clbits)
 
     # Get total number of qubits
     if num_qubits is None:
@@ -225,6 +225,23 @@ def assignment_matrix(cal_data: Dict[int, Dict[int, int]],
     return amat / renorm
 
 
+def _clbit_counts(counts: Counts, clbits: List[int]) -> Dict[str, int]:
+    """Marginalize counts to the specified bits, in the specified order.
+
+    Args:
+        counts: counts object
+        clbits: the bits to keep, the first one is the rightmost in the
+                returned keys.
+
+    Returns:
+        dict: the counts of the specified bits.
+    """
+    marginal = marginal_counts(counts, meas_qubits=clbits)
+    # The marginal counts are in ascending order of the bits
+    order = [len(clbits) - 1 - i for i in np.argsort(np.argsort(clbits))][::-1]
+    return {''.join(key[i] for i in order): val for key, val in marginal.items()}
+
+
 def _expval_with_stddev(coeffs: np.ndarray,
                         probs: np.ndarray,
                         shots: int) -> Tuple[float, float]:
-- 
2.43.0


From bd1cb44a5d9a9be271ab3ee5338f83a67101fc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:56 +0000
Subject: [PATCH 60/63] fix: planning the GHZ steps took exponential time on
 deep coupling maps

Every level revisited all neighbours of all qubits of the previous level, so
the work doubled with every level (hours for a line of 24 qubits) and
coupling maps with more than 51 levels lost qubits. Continue from the newly
reached qubits only.
---
 qiskit/ignis/verification/entanglement/parallelize.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/qiskit/ignis/verification/entanglement/parallelize.py b/qiskit/ignis/verification/entanglement/parallelize.py
index 18fe4e9..2ddbf85 100644
--- a/qiskit/ignis/verification/entanglement/parallelize.py
+++ b/qiskit/ignis/verification/entanglement/parallelize.py
@@ -176,15 +176,14 @@ class BConfig:
 
         parentlist = []
         parentlist.append(parent)
-        ii = 0
         while True:
             totalchildren = []
             for parent in parentlist:
                 children = self.nodes[parent]
                 if self.indicator:
                     children = self._child_sorter(children, parent)
-                totalchildren += children
                 children = [a for a in children if a not in trashlist]
+                totalchildren += children
                 j = tier_DM[parent]
                 for i, _ in enumerate(children):
                     tier[j] += [[parent, children[i]]]
@@ -193,10 +192,7 @@ class BConfig:
                     trashlist.append(children[i])
                 parentlist = totalchildren
 
-            if len(trashlist) == length:
-                break
-            ii += 1
-            if ii > 50:
+            if len(trashlist) == length or not parentlist:
                 break
 
         newtier = {}
-- 
2.43.0


From 555908170d0573d274ab11bbbe7a69fd9a322092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:15 +0000
Subject: [PATCH 61/63] fix: GHZ circuits could not be planned when qubit 0 has
 no coupling

---
 qiskit/ignis/verification/entanglement/parallelize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/entanglement/parallelize.py b/qiskit/ignis/verification/entanglement/parallelize.py
index 2ddbf85..c80a0bf 100644
--- a/qiskit/ignis/verification/entanglement/parallelize.py
+++ b/qiskit/ignis/verification/entanglement/parallelize.py
@@ -76,7 +76,7 @@ class BConfig:
         based on error, but that is probably not too useful
         """
 
-        best_node = 0
+        best_node = min(self.nodes)
         for i in self.nodes:
             if len(self.nodes[i]) > len(self.nodes[best_node]):
                 best_node = i
-- 
2.43.0


From 3269cc2ac9182d07a074913a95e9fa79f46a0664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:56 +0000
Subject: [PATCH 62/63] fix: phase polynomials set by set_pj were never equal
 to others

---
 .../ignis/verification/randomized_benchmarking/dihedral.py  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index 4415faa..db0245c 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -201,9 +201,9 @@ class SpecialPolynomial():
         subsets_2 = itertools.combinations(indices, 2)
         subsets_3 = itertools.combinations(indices, 3)
         self.weight_0 = 0
-        self.weight_1 = np.zeros(self.n_vars)
-        self.weight_2 = np.zeros(self.nc2)
-        self.weight_3 = np.zeros(self.nc3)
+        self.weight_1 = np.zeros(self.n_vars, dtype=np.int8)
+        self.weight_2 = np.zeros(self.nc2, dtype=np.int8)
+        self.weight_3 = np.zeros(self.nc3, dtype=np.int8)
         for j in indices:
             self.set_term([j], 1)
         for j in subsets_2:
-- 
2.43.0


From 44888934348ca529766e2478e51410881164cc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:40 +0000
Subject: [PATCH 63/63] fix: phase polynomials on nine or more variables could
 not be multiplied

The variables of a product were listed in the order of a Python set, which
is not increasing from nine variables on, and the term was then refused, so
that CNOT-dihedral elements on nine or more qubits could not be composed.
---
 qiskit/ignis/verification/randomized_benchmarking/dihedral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
index db0245c..b1a0db8 100644
--- a/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
+++ b/qiskit/ignis/verification/randomized_benchmarking/dihedral.py
@@ -97,7 +97,7 @@ class SpecialPolynomial():
             terms3 = list(combinations(range(self.n_vars), r=3))
             for term in terms0 + terms1 + terms2 + terms3:
                 value = self.get_term(term)
-                new_term = list(set(term).union(set(indices)))
+                new_term = sorted(set(term).union(set(indices)))
                 result.set_term(new_term, (result.get_term(new_term) + value) % 8)
         return result
 
-- 
2.43.0

