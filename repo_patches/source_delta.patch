From a1d4905a7ed9c88e998df63a9280666ebff2b3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:23 +0000
Subject: [PATCH 01/14] fix: canonicalize a term that vanishes by symmetry to
 the empty term

SymPy's canonicalize returns 0 for such terms and the code then failed with
a TypeError when indexing the result.
---
 dsrg_generator/Term.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsrg_generator/Term.py b/dsrg_generator/Term.py
index 41b1cb8..b03d817 100644
--- a/dsrg_generator/Term.py
+++ b/dsrg_generator/Term.py
@@ -770,6 +770,8 @@ class Term:
 
         # canonicalize indices
         gc = canonicalize(Permutation(g), dummies, [0] * len(dummies), *bsgs_list)
+        if gc == 0:  # this term vanishes by symmetry
+            return self.void()
 
         # translate gc to Tensor and SecondQuantizedOperator
         ann_ops = self.sq_op.indices_type([dummy_indices[i // 2] for i in gc[:self.sq_op.n_ann]])
-- 
2.43.0


From 8a19378bcdc0ca959581f77ae0538849fc605dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:23 +0000
Subject: [PATCH 02/14] fix: hash Index by the same (space, number) used for
 equality

Index('g1') == Index('g01') but they had different hashes, so repeated indices
and term connections were not recognised across the two spellings.
---
 dsrg_generator/Index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsrg_generator/Index.py b/dsrg_generator/Index.py
index dcdc216..885575d 100644
--- a/dsrg_generator/Index.py
+++ b/dsrg_generator/Index.py
@@ -73,7 +73,7 @@ class Index:
         return (space_priority[self.space], self.number) >= (space_priority[other.space], other.number)
 
     def __hash__(self):
-        return hash(self.name)
+        return hash((self.space, self.number))
 
     def latex(self, dollar=False):
         out = f"{self.space}_{{{self.number}}}"
-- 
2.43.0


From 9ba5861b304d5432cdeea09ae1b184f357a143da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:49 +0000
Subject: [PATCH 03/14] fix: add up lower- and upper-case labels in
 MOSpaceCounter.raw_counter

Only the last of e.g. 'c' and 'C' was kept, although both were counted for the scaling.
---
 dsrg_generator/mo_space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsrg_generator/mo_space.py b/dsrg_generator/mo_space.py
index 77b1a94..129b79f 100644
--- a/dsrg_generator/mo_space.py
+++ b/dsrg_generator/mo_space.py
@@ -78,7 +78,9 @@ class MOSpaceCounter:
                 else:
                     idict['v'] += n
 
-        self._input_counter = {k.lower(): v for k, v in input_counter.items()}
+        self._input_counter = {}
+        for k, n in input_counter.items():
+            self._input_counter[k.lower()] = self._input_counter.get(k.lower(), 0) + n
 
         self._parsed_counter = [idict['v'], idict['c'], idict['a']]
         self._overall_scaling = sum(self._parsed_counter)
-- 
2.43.0


From 969bf0e674d19a630b0514868566e678d4e3e692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:49 +0000
Subject: [PATCH 04/14] fix: yield the only partition of 1 in integer_partition

---
 dsrg_generator/helper/integer_partition.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsrg_generator/helper/integer_partition.py b/dsrg_generator/helper/integer_partition.py
index 8ca282d..be3d72e 100644
--- a/dsrg_generator/helper/integer_partition.py
+++ b/dsrg_generator/helper/integer_partition.py
@@ -6,6 +6,10 @@ def integer_partition(n):
     other implementations see
     https://stackoverflow.com/questions/18503096/python-integer-partitioning-with-given-k-partitions
     """
+    if n == 1:
+        yield [1]
+        return
+
     x = [1] * n
     x[0] = n
     m, h = 1, 1
-- 
2.43.0


From bffafb5d25bf76260d8fc23d03f92b3d2ee44e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:49 +0000
Subject: [PATCH 05/14] fix: use the existing indices_type attribute in
 SpaceCounter

type_of_indices does not exist, so no SpaceCounter could be constructed.
---
 SpaceCounter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SpaceCounter.py b/SpaceCounter.py
index 034c095..8635638 100644
--- a/SpaceCounter.py
+++ b/SpaceCounter.py
@@ -18,11 +18,11 @@ class SpaceCounter:
         if not isinstance(tensor2, (Tensor, SecondQuantizedOperator)):
             raise TypeError(f"Invalid input for tensor2, given '{tensor2.__class__.__name__}',"
                             f" required 'Tensor'.")
-        if tensor1.type_of_indices is not tensor2.type_of_indices:
+        if tensor1.indices_type is not tensor2.indices_type:
             raise ValueError(f"Two tensors are of different indices type:"
-                             f" '{tensor1.type_of_indices}' and '{tensor2.type_of_indices}'.")
+                             f" '{tensor1.indices_type}' and '{tensor2.indices_type}'.")
 
-        _space_priority = space_priority_so if tensor1.type_of_indices is IndicesSpinOrbital else space_priority
+        _space_priority = space_priority_so if tensor1.indices_type is IndicesSpinOrbital else space_priority
         length = len(_space_priority)
         self._upper = [0] * length
         self._lower = [0] * length
-- 
2.43.0


From 3453d9b3744a052532512532a3c28b28f56c3235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:49 +0000
Subject: [PATCH 06/14] fix: keep active indices of H in bch_cc_rsc for
 multi-reference calculations

The Hamiltonian was always expanded with single-reference labels, so every term of
the multi-reference BCH expansion with an active index on H was lost.
---
 dsrg_generator/phys_op_contraction.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsrg_generator/phys_op_contraction.py b/dsrg_generator/phys_op_contraction.py
index a3e0bc0..434e03e 100644
--- a/dsrg_generator/phys_op_contraction.py
+++ b/dsrg_generator/phys_op_contraction.py
@@ -344,11 +344,11 @@ def bch_cc_rsc(nested_level, cluster_levels, max_cu_levels, n_opens, for_commuta
             for i in range(nested_level)]
 
     out = defaultdict(list)
-    out[0] = combine_terms([x for x in hamiltonian_operator(1).expand_composite_indices(True)]) + \
-             combine_terms([x for x in hamiltonian_operator(2).expand_composite_indices(True)])
+    out[0] = combine_terms([x for x in hamiltonian_operator(1).expand_composite_indices(single_reference)]) + \
+             combine_terms([x for x in hamiltonian_operator(2).expand_composite_indices(single_reference)])
 
-    left_pool = combine_terms([x for x in hamiltonian_operator(1).expand_composite_indices(True)]) + \
-                combine_terms([x for x in hamiltonian_operator(2).expand_composite_indices(True)])
+    left_pool = combine_terms([x for x in hamiltonian_operator(1).expand_composite_indices(single_reference)]) + \
+                combine_terms([x for x in hamiltonian_operator(2).expand_composite_indices(single_reference)])
 
     for i in range(1, nested_level + 1):
         factor = 1.0 / i
-- 
2.43.0


From f7a74d01810580fd68168dc08bb7c45916372600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:49 +0000
Subject: [PATCH 07/14] fix: declare temp in the generated function whenever it
 is used

It was only declared when a C0 target existed.
---
 dsrg_generator/write_forte_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsrg_generator/write_forte_functions.py b/dsrg_generator/write_forte_functions.py
index 9a6c967..4fadedf 100644
--- a/dsrg_generator/write_forte_functions.py
+++ b/dsrg_generator/write_forte_functions.py
@@ -55,6 +55,8 @@ def save_terms_ambit_functions(input_terms, func_name, namespace, path_dir, add_
 
     suffix = []
     if add_t_dagger:
+        if not destroy_h and any(i != 'C0' for i in func_targets):
+            suffix.append('BlockedTensor temp;')
         for i in func_targets:
             n_body = int(i[1:])
             upper = ','.join(f'g{i}' for i in range(n_body))
@@ -62,8 +64,6 @@ def save_terms_ambit_functions(input_terms, func_name, namespace, path_dir, add_
 
             if i == 'C0':
                 suffix.append('C0 *= 2.0;')
-                if not destroy_h:
-                    suffix.append('BlockedTensor temp;')
             else:
                 name = f'H{n_body}'
                 if not destroy_h:
-- 
2.43.0


From 6c6a9157811d3937c7417f9e1e8f4a73bdd4b34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:49 +0000
Subject: [PATCH 08/14] fix: scale the targets by factor in the generated
 function

The scale statements were prepared but never written, so factor was ignored.
---
 dsrg_generator/write_forte_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsrg_generator/write_forte_functions.py b/dsrg_generator/write_forte_functions.py
index 4fadedf..03dc8b7 100644
--- a/dsrg_generator/write_forte_functions.py
+++ b/dsrg_generator/write_forte_functions.py
@@ -75,7 +75,8 @@ def save_terms_ambit_functions(input_terms, func_name, namespace, path_dir, add_
                 suffix.append(f'{i}["{upper},{lower}"] += {name}["{lower},{upper}"];')
 
     func += indent.join(prefix) + '\n' + indent
-    func += indent.join(func_calls) + '\n'
+    func += indent.join(func_calls) + '\n' + indent
+    func += indent.join(scale) + '\n'
     if suffix:
         func += indent
     func += indent.join(suffix)
-- 
2.43.0


From 377e02a1f7de03fda93177560f1feffc9eae2563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:49 +0000
Subject: [PATCH 09/14] fix: accept density cumulants in
 save_terms_ambit_functions

Terms with a cumulant failed with KeyError because L tensors had no ordering.
---
 dsrg_generator/write_forte_functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsrg_generator/write_forte_functions.py b/dsrg_generator/write_forte_functions.py
index 03dc8b7..dd1132f 100644
--- a/dsrg_generator/write_forte_functions.py
+++ b/dsrg_generator/write_forte_functions.py
@@ -17,6 +17,7 @@ def save_terms_ambit_functions(input_terms, func_name, namespace, path_dir, add_
 
     tensor_ordering = {f"H{i}": i for i in range(1, 10)}
     tensor_ordering.update({f"T{i}": i + 100 for i in range(1, 10)})
+    tensor_ordering.update({f"L{i}": i + 150 for i in range(1, 10)})
     tensor_ordering.update({f"C{i}": i + 200 for i in range(10)})
     tensor_types = {i: 'double' if i == 'C0' else 'BlockedTensor' for i in tensor_ordering}
 
-- 
2.43.0


From 28d0081cb4070603d5217329a89f84855a1dcfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:12 +0000
Subject: [PATCH 10/14] fix: print_terms_latex separates the rows of all terms
 in a block

---
 dsrg_generator/phys_op_contraction.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsrg_generator/phys_op_contraction.py b/dsrg_generator/phys_op_contraction.py
index 434e03e..1725894 100644
--- a/dsrg_generator/phys_op_contraction.py
+++ b/dsrg_generator/phys_op_contraction.py
@@ -493,10 +493,10 @@ def print_terms_latex(input_terms):
 
     for block in block_repr.keys():
         print("\\begin{align}")
-        for perm, terms in block_repr[block].items():
-            i_last = len(terms) - 1
-            for i, term in enumerate(terms):
-                print(term.latex(delimiter=True, backslash=(i != i_last)))
+        block_terms = [term for terms in block_repr[block].values() for term in terms]
+        i_last = len(block_terms) - 1
+        for i, term in enumerate(block_terms):
+            print(term.latex(delimiter=True, backslash=(i != i_last)))
         print("\\end{align}\n")
 
 # def print_terms_ambit_symmetric(input_terms):
-- 
2.43.0


From 596a247d02b95e777ffc158e4d5d64c27406bb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:17 +0000
Subject: [PATCH 11/14] fix: relabel the partner of a diagonal index when a
 Kronecker delta is removed

---
 dsrg_generator/Term.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsrg_generator/Term.py b/dsrg_generator/Term.py
index b03d817..aadcc1e 100644
--- a/dsrg_generator/Term.py
+++ b/dsrg_generator/Term.py
@@ -630,7 +630,10 @@ class Term:
                                                        self.diagonal_indices, replacement_diagonal)
                     else:
                         replacement[high] = low
-                        Term._add_replacement_diagonal(high, low, self.diagonal_indices, replacement_diagonal)
+
+                    # if one index is diagonal, the other has to follow its final label
+                    Term._add_replacement_diagonal(high, low, self.diagonal_indices, replacement_diagonal)
+                    Term._add_replacement_diagonal(low, high, self.diagonal_indices, replacement_diagonal)
             else:
                 list_of_tensors.append(tensor)
 
-- 
2.43.0


From fb6088d51956d5363c1fb80eb2e7bb2c251ad9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:17 +0000
Subject: [PATCH 12/14] fix: void a term whose diagonal index has no common
 orbital space

---
 dsrg_generator/Term.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsrg_generator/Term.py b/dsrg_generator/Term.py
index aadcc1e..1baff9d 100644
--- a/dsrg_generator/Term.py
+++ b/dsrg_generator/Term.py
@@ -525,6 +525,9 @@ class Term:
         for index in self.diagonal_indices:
             replacement_diagonal = replacement_diagonal_cu[index] | replacement_diagonal_delta[index]
             overlap = set.intersection(*(space_relation[i.space] for i in replacement_diagonal))
+            if not overlap:  # no orbital satisfies all restrictions on this diagonal index
+                self.void_self()
+                return
             replacement[index] = self._generate_next_index(find_space_label(overlap), self.next_index_number)
             for i in replacement_diagonal:
                 replacement[i] = replacement[index]
-- 
2.43.0


From 079a11b43dce5fdde2f20093da49797813f623fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:45 +0000
Subject: [PATCH 13/14] fix: simplifying or canonicalizing the zero term again
 gives the zero term

---
 dsrg_generator/Term.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsrg_generator/Term.py b/dsrg_generator/Term.py
index 1baff9d..22fc2a4 100644
--- a/dsrg_generator/Term.py
+++ b/dsrg_generator/Term.py
@@ -511,6 +511,10 @@ class Term:
         :param simplify_core_cumulant: change a cumulant labeled by core indices to a Kronecker delta
         :param remove_active_amplitudes: remove terms when its contains all-active amplitudes
         """
+        if self.is_void():  # nothing to simplify
+            self.void_self()
+            return
+
         replacement = {i: i for i in self.indices_set}
 
         # downgrade cumulant indices
-- 
2.43.0


From 7e35373802fd37c43db6ee176a12d2e75f972a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:14 +0000
Subject: [PATCH 14/14] fix: traversals of one index list no longer share their
 position

---
 dsrg_generator/Indices.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/dsrg_generator/Indices.py b/dsrg_generator/Indices.py
index 73e754a..2bd76d8 100644
--- a/dsrg_generator/Indices.py
+++ b/dsrg_generator/Indices.py
@@ -168,15 +168,7 @@ class Indices:
         return (self.size, self.indices) >= (other.size, other.indices)
 
     def __iter__(self):
-        self.n = 0
-        return self
-
-    def __next__(self):
-        if self.n < self.size:
-            self.n += 1
-            return self.indices[self.n - 1]
-        else:
-            raise StopIteration
+        return iter(self.indices)
 
     def __getitem__(self, key):
         # index out-of-range handled by python list
-- 
2.43.0

