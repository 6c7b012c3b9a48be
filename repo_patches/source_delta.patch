From e32b111140b20228684e9dcf5a08a6d6b1557ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 01/64] fix: equal Groups have equal hashes, so that they are
 interchangeable

---
 qldpc/abstract.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index b11dccf..52451c4 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -170,7 +170,7 @@ class Group:
         return isinstance(other, Group) and self._group == other._group
 
     def __hash__(self) -> int:
-        return hash((self._group, self._generate_func, self._lift))
+        return hash(self._group)
 
     @property
     def name(self) -> str:
@@ -254,12 +254,19 @@ class Group:
             sympy.core.random.seed(seed)
         return GroupMember.from_sympy(self._group.random())
 
-    @functools.cache
+    @functools.cached_property
+    def _regular_lifts(self) -> dict[GroupMember, npt.NDArray[np.int_]]:
+        return {}
+
     def regular_lift(self, member: GroupMember) -> npt.NDArray[np.int_]:
         """Lift a group member to its regular representation."""
-        matrix = np.zeros([self.order] * 2, dtype=int)
-        for ii, gg in enumerate(self.generate()):
-            matrix[self.index(member * gg), ii] = 1
+        # cache by instance, because groups that compare equal may enumerate members differently
+        matrix = self._regular_lifts.get(member)
+        if matrix is None:
+            matrix = np.zeros([self.order] * 2, dtype=int)
+            for ii, gg in enumerate(self.generate()):
+                matrix[self.index(member * gg), ii] = 1
+            self._regular_lifts[member] = matrix
         return matrix
 
     def lift(self, member: GroupMember) -> npt.NDArray[np.int_]:
-- 
2.43.0


From b0c7f262d505f5c67147742f9594545337e22b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 02/64] fix: the identity is a member of every trivial group

---
 qldpc/abstract.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 52451c4..42340ac 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -192,7 +192,10 @@ class Group:
         return new_group
 
     def __contains__(self, member: GroupMember) -> bool:
-        return member in self._group
+        # SymPy does not recognize the identity as a member of a trivial group
+        return member in self._group or (
+            member.is_Identity and member.size == self._group.degree
+        )
 
     @property
     def order(self) -> int:
-- 
2.43.0


From 284fca9347482bbeccadaaa5cfc38dc6d9ee76a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 03/64] fix: random members of trivial groups and of
 SmallGroups with index 1

---
 qldpc/abstract.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 42340ac..601e006 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -255,6 +255,9 @@ class Group:
         """A random element this group."""
         if seed is not None:
             sympy.core.random.seed(seed)
+        if self.order == 1:
+            # SymPy throws an error when "unranking" the only member of a trivial group
+            return self.identity
         return GroupMember.from_sympy(self._group.random())
 
     @functools.cached_property
@@ -1263,7 +1266,7 @@ class SmallGroup(Group):
 
     def random(self, *, seed: int | None = None) -> GroupMember:
         """A random element this group."""
-        return super().random(seed=seed) if self.group_index > 1 else self.identity
+        return super().random(seed=seed) if self.order > 1 else self.identity
 
     @functools.cached_property
     def structure(self) -> str:
-- 
2.43.0


From a811ad8266432b299a17e89f2206d1052c7307af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 04/64] fix: enumerate AbelianGroups with trivial factors

---
 qldpc/abstract.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 601e006..b42db5f 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1161,9 +1161,11 @@ class AbelianGroup(Group):
 
         # override the default order in which SymPy iterates over group members
         def generate_func() -> Iterator[comb.Permutation]:
-            for powers in itertools.product(*[range(order) for order in orders]):
+            # trivial factors (with order 1) do not contribute a generator
+            nontrivial_orders = [order for order in orders if order > 1]
+            for powers in itertools.product(*[range(order) for order in nontrivial_orders]):
                 factors = [gen**power for gen, power in zip(group.generators, powers)]
-                yield functools.reduce(operator.mul, factors)
+                yield functools.reduce(operator.mul, factors, group.identity)
 
         super()._init_from_group(group, name, generate_func, lift)
 
-- 
2.43.0


From de5d743474399b4315de31f749e499c30504eef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 05/64] fix: allow repeated matrices in
 Group.from_generating_mats

---
 qldpc/abstract.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index b42db5f..cea962a 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -314,12 +314,16 @@ class Group:
         if not matrices:
             return TrivialGroup()
 
+        # identify distinct generators
+        hash_to_generator = {}
+        for matrix in matrices:
+            gen = matrix if isinstance(matrix, np.ndarray) else np.asarray(matrix, dtype=int)
+            hash_to_generator.setdefault(hash(gen.data.tobytes()), gen)
+        num_generators = len(hash_to_generator)
+
         # keep track of group members and a multiplication table
-        index_to_member = {
-            idx: gen if isinstance(gen, np.ndarray) else np.asarray(gen, dtype=int)
-            for idx, gen in enumerate(matrices)
-        }
-        hash_to_index = {hash(gen.data.tobytes()): idx for idx, gen in index_to_member.items()}
+        index_to_member = dict(enumerate(hash_to_generator.values()))
+        hash_to_index = {gen_hash: idx for idx, gen_hash in enumerate(hash_to_generator)}
         table_as_dict = {}
 
         new_members: dict[int, npt.NDArray[np.int_]]
@@ -358,7 +362,7 @@ class Group:
             return index_to_member[permutation_to_index[tuple(member.array_form)]]
 
         # identify generating permutations and build the group itself
-        generators = [GroupMember(table[row]) for row in range(len(matrices))]
+        generators = [GroupMember(table[row]) for row in range(num_generators)]
         return Group(*generators, lift=lift)
 
     def random_symmetric_subset(
-- 
2.43.0


From 3b7ccbc3e2c8e0d787a50b714a31b465febed042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 06/64] fix: make the lift of Group.from_generating_mats a
 homomorphism

---
 qldpc/abstract.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index cea962a..b8917f7 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -354,15 +354,16 @@ class Group:
         for (aa, bb), cc in table_as_dict.items():
             table[aa, bb] = cc
 
-        # dictionary from a permutation to the index of a group member
-        permutation_to_index = {tuple(row): idx for idx, row in enumerate(table)}
+        # Dictionary from a permutation to the index of a group member.  SymPy composes permutations
+        # from left to right, so group members need to permute each other by right-multiplication.
+        permutation_to_index = {tuple(col): idx for idx, col in enumerate(table.T)}
 
         def lift(member: GroupMember) -> npt.NDArray[np.int_]:
             """Lift a member to its matrix representation."""
             return index_to_member[permutation_to_index[tuple(member.array_form)]]
 
         # identify generating permutations and build the group itself
-        generators = [GroupMember(table[row]) for row in range(num_generators)]
+        generators = [GroupMember(table[:, col]) for col in range(num_generators)]
         return Group(*generators, lift=lift)
 
     def random_symmetric_subset(
-- 
2.43.0


From 8c20c2424df39103b4ab8f30aac1102c19d2bf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 07/64] fix: yield square matrices in PSL.iter_mats

---
 qldpc/abstract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index b8917f7..5ff2993 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1504,7 +1504,8 @@ class ProjectiveSpecialLinearGroup(Group):
             for mat in SpecialLinearGroup.iter_mats(dimension, field)
         ]
         for orbit in set(orbits):
-            yield np.frombuffer(next(iter(orbit)), dtype=np.uint8).view(base_field)
+            matrix = np.frombuffer(next(iter(orbit)), dtype=np.uint8).view(base_field)
+            yield matrix.reshape(dimension, dimension)
 
 
 SL = SpecialLinearGroup
-- 
2.43.0


From a3e538b5f58b03fab35ff24bd0f308a5698e738d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 08/64] fix: make the lifts of SL and PSL homomorphisms

---
 qldpc/abstract.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 5ff2993..926bb2d 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1328,7 +1328,7 @@ class SpecialLinearGroup(Group):
             for member in self.get_generating_mats(self.dimension, self.field.order):
                 perm = np.empty(len(target_space), dtype=int)
                 for index, vec_bytes in enumerate(target_space):
-                    next_vec = member @ np.frombuffer(vec_bytes, dtype=np.uint8).view(self.field)
+                    next_vec = np.frombuffer(vec_bytes, dtype=np.uint8).view(self.field) @ member
                     next_index = target_space.index(next_vec.view(np.ndarray).tobytes())
                     perm[index] = next_index
                 generators.append(GroupMember(perm))
@@ -1336,17 +1336,18 @@ class SpecialLinearGroup(Group):
             def lift(member: GroupMember) -> npt.NDArray[np.int_]:
                 """Lift a group member to a square matrix.
 
-                Each column is determined by how the matrix acts on a standard basis vector.
+                Each row is determined by how the (right-acting) matrix acts on a standard basis
+                vector.
                 """
-                cols = []
+                rows = []
                 for entry in range(self.dimension):
                     inp_vec = np.zeros(self.dimension, dtype=np.uint8)
                     inp_vec[entry] = 1
                     inp_idx = target_space.index(inp_vec.tobytes())
                     out_idx = member(inp_idx)
                     out_vec = np.frombuffer(target_space[out_idx], dtype=np.uint8)
-                    cols.append(out_vec)
-                return np.vstack(cols, dtype=int).T
+                    rows.append(out_vec)
+                return np.vstack(rows, dtype=int)
 
             super()._init_from_group(comb.PermutationGroup(generators), lift=lift)
 
@@ -1437,7 +1438,7 @@ class ProjectiveSpecialLinearGroup(Group):
                 perm = np.empty(len(target_space), dtype=int)
                 for index, vec_bytes in enumerate(target_space):
                     vec = np.frombuffer(vec_bytes, dtype=np.uint8).view(self.field)
-                    next_orbit = [root * member @ vec for root in roots]
+                    next_orbit = [root * vec @ member for root in roots]
                     next_vec = next((vec for vec in next_orbit if vec.tobytes() in target_space))
                     next_index = target_space.index(next_vec.tobytes())
                     perm[index] = next_index
@@ -1447,17 +1448,18 @@ class ProjectiveSpecialLinearGroup(Group):
             def lift(member: GroupMember) -> npt.NDArray[np.int_]:
                 """Lift a group member to a square matrix.
 
-                Each column is determined by how the matrix acts on a standard basis vector.
+                Each row is determined by how the (right-acting) matrix acts on a standard basis
+                vector.
                 """
-                cols = []
+                rows = []
                 for entry in range(self.dimension):
                     inp_vec = np.zeros(self.dimension, dtype=np.uint8)
                     inp_vec[entry] = 1
                     inp_idx = target_space.index(inp_vec.tobytes())
                     out_idx = member(inp_idx)
                     out_vec = np.frombuffer(target_space[out_idx], dtype=np.uint8)
-                    cols.append(out_vec)
-                return np.vstack(cols, dtype=int).T
+                    rows.append(out_vec)
+                return np.vstack(rows, dtype=int)
 
             super()._init_from_group(comb.PermutationGroup(generators), lift=lift)
 
-- 
2.43.0


From 1c4aeeec013403636558df88ea6d51ac39730b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 09/64] fix: make PSL lifts valid representations, independent
 of the hash seed

---
 qldpc/abstract.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 926bb2d..78a4f8e 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1430,7 +1430,7 @@ class ProjectiveSpecialLinearGroup(Group):
                 for vec in itertools.product(range(self.field.order), repeat=self.dimension)
             ]
             del target_orbits[0]  # remove the orbit of the zero vector
-            target_space = [next(iter(orbit)) for orbit in set(target_orbits)]
+            target_space = [min(orbit) for orbit in dict.fromkeys(target_orbits)]
 
             # identify how the generators permute elements of the target space
             generators = []
@@ -1444,7 +1444,9 @@ class ProjectiveSpecialLinearGroup(Group):
                     perm[index] = next_index
                 generators.append(GroupMember(perm))
 
-            # construct a lift identical to that for the linear representation of SL
+            # Construct a lift identical to that for the linear representation of SL.  If there are
+            # nontrivial roots of unity, vectors are only identified up to these roots, so there is
+            # no such lift, and group members get lifted to their regular representation.
             def lift(member: GroupMember) -> npt.NDArray[np.int_]:
                 """Lift a group member to a square matrix.
 
@@ -1461,7 +1463,9 @@ class ProjectiveSpecialLinearGroup(Group):
                     rows.append(out_vec)
                 return np.vstack(rows, dtype=int)
 
-            super()._init_from_group(comb.PermutationGroup(generators), lift=lift)
+            super()._init_from_group(
+                comb.PermutationGroup(generators), lift=lift if num_roots == 1 else None
+            )
 
         else:
             # represent group members by how they permute elements of the group itself
-- 
2.43.0


From 82201336e7db0aa2f4401a676f6747b4cb4fb70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 10/64] fix: RingMember.inverse for groups whose enumeration
 does not start at the identity

---
 qldpc/abstract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 78a4f8e..3c6341d 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -699,7 +699,8 @@ class RingMember:
         try:
             matrix = self.regular_lift()
             matrix_inv = np.linalg.inv(matrix).view(self.field)
-            return RingMember.from_vector(self.ring, matrix_inv[:, 0])
+            identity_index = self.group.index(self.group.identity)
+            return RingMember.from_vector(self.ring, matrix_inv[:, identity_index])
         except np.linalg.LinAlgError:
             return None
 
-- 
2.43.0


From 9ae8ad542e269e2aaf1f075cc7c4564f954e9428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 11/64] fix: TrivialGroup.to_ring_array over non-prime fields

---
 qldpc/abstract.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 3c6341d..d10e105 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1128,11 +1128,10 @@ class TrivialGroup(Group):
         field = type(data).order if isinstance(data, galois.FieldArray) else None
         group = TrivialGroup()
         ring = GroupRing(group, field)
-        zero = ring.zero
-        one = ring.one
 
-        array = np.asarray(data, dtype=int)
-        terms = [val * one if val else zero for val in array.ravel()]
+        # entries of a FieldArray are elements of the field, while integers get cast into the field
+        array = np.asarray(data, dtype=int) if field else np.asarray(data, dtype=int) % 2
+        terms = [RingMember(ring, (int(val), group.identity)) for val in array.ravel()]
         return RingArray(np.array(terms, dtype=object).reshape(array.shape))
 
 
-- 
2.43.0


From 9f3e3e2222c71d1edd50870ad2dc1c138d9032c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 12/64] fix: trivial null spaces of RingArrays

---
 qldpc/abstract.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index d10e105..90b130b 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -822,12 +822,16 @@ class RingArray(npt.NDArray[np.object_]):
     def regular_lift(self) -> galois.FieldArray:
         """Block matrix obtained by a regular lift of each entry of this RingArray."""
         assert self.ndim == 2
+        if not self.size:
+            return self.field.Zeros([size * self.group.order for size in self.shape])
         blocks = [[val.regular_lift() for val in row] for row in self]
         return np.block(blocks).view(self.field)
 
     def lift(self) -> galois.FieldArray:
         """Block matrix obtained by lifting each entry of this RingArray."""
         assert self.ndim == 2
+        if not self.size:
+            return self.field.Zeros([size * self.group.lift_dim for size in self.shape])
         blocks = [[val.lift() for val in row] for row in self]
         return np.block(blocks).view(self.field)
 
@@ -880,7 +884,7 @@ class RingArray(npt.NDArray[np.object_]):
         group = ring.group if isinstance(ring, GroupRing) else ring
         assert array.shape[-1] == group.order
         vals = [RingMember.from_vector(ring, entry) for entry in array.reshape(-1, group.order)]
-        return RingArray(np.array(vals, dtype=object).reshape(array.shape[:-1]))
+        return RingArray(np.array(vals, dtype=object).reshape(array.shape[:-1]), ring)
 
     def to_field_array(self) -> galois.FieldArray:
         """Convert a RingArray into an array of coefficients (in a finite field) for each entry.
@@ -919,7 +923,7 @@ class RingArray(npt.NDArray[np.object_]):
         # collect ring-valued null row vectors (that is, transposed null column vectors)
         null_vectors = ~RingArray.from_field_array(
             self.ring,
-            null_field_vectors.reshape(len(null_field_vectors), -1, self.group.order),
+            null_field_vectors.reshape(len(null_field_vectors), self.shape[1], self.group.order),
         )
 
         return null_vectors.row_reduce(force_heuristic=force_heuristic)
-- 
2.43.0


From 11873d3e563693978371310a558e77a58f843474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 13/64] fix: keep the results of repeated row reductions in
 RingArray.row_reduce

---
 qldpc/abstract.py | 59 ++++++++++++++++++++++++-----------------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 90b130b..e6cf3e1 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -985,7 +985,7 @@ class RingArray(npt.NDArray[np.object_]):
 
         return np.vstack([pivot_matrix, non_pivot_matrix]).view(RingArray)
 
-    def _reduce_rows_with_invertible_entries(self, *, restart_call: bool = False) -> RingArray:
+    def _reduce_rows_with_invertible_entries(self) -> RingArray:
         """Row-reduce greedily using invertible entries.
 
         Loop over every row.  If that row contains an invertible entry, normalize the row by this
@@ -993,41 +993,42 @@ class RingArray(npt.NDArray[np.object_]):
         an appropriate multiple of this row (as you would with ordinary Gaussian elimination).
         """
         assert self.ndim == 2
-        rows: slice | list[int]
+        matrix = self.copy()
+        num_rows, _ = self.shape
 
-        matrix = self if restart_call else self.copy()
-        num_rows, num_cols = self.shape
+        rows_to_reduce = list(range(num_rows))  # which rows do not have a pivot?
+        while rows_to_reduce:
+            noninvertible_rows = []  # which rows have only non-invertible entries?
+            for row in rows_to_reduce:
+                row_vector = matrix[row]
 
-        row_reductions_made = False  # did we perform row reductions?
-        noninvertible_rows = []  # which rows have only non-invertible entries?
-        for row in range(num_rows):
-            row_vector = matrix[row]
+                # look for an invertible entry in this row
+                inverse = None
+                for col, entry in enumerate(row_vector):
+                    if inverse := entry.inverse():
+                        break
 
-            # look for an invertible entry in this row
-            for col, entry in enumerate(row_vector):
-                if inverse := entry.inverse():
-                    break
+                """
+                If we found an invertible entry,
+                - multiply this row by the inverse, so that this entry is 1, and
+                - zero out the corresponding column in all other rows.
+                """
+                if inverse:
+                    # "normalize" the entry to 1, and zero out its column in all other rows
+                    new_vector = inverse * row_vector
+                    matrix[row] = new_vector
+                    for rows in [slice(None, row), slice(row + 1, num_rows)]:
+                        matrix[rows] = matrix[rows] - matrix[rows, col, None] * new_vector[None, :]
 
-            """
-            If we found an invertible entry,
-            - multiply this row by the inverse, so that this entry is 1, and
-            - zero out the corresponding column in all other rows.
-            """
-            if inverse:
-                # "normalize" the entry to 1, and zero out its column in all other rows
-                new_vector = inverse * row_vector
-                matrix[row] = new_vector
-                for rows in [slice(None, row), slice(row + 1, num_rows)]:
-                    matrix[rows] = matrix[rows] - matrix[rows, col, None] * new_vector[None, :]
-                row_reductions_made = True
+                else:
+                    noninvertible_rows.append(row)
 
-            else:
-                noninvertible_rows.append(row)
+            if len(noninvertible_rows) == len(rows_to_reduce):
+                # no row reductions were made
+                break
 
-        if row_reductions_made and noninvertible_rows:
             # some non-invertible entries may have become invertible, so try row-reducing again
-            rows = [row for row in noninvertible_rows if np.any(matrix[row])]
-            matrix[rows].view(RingArray)._reduce_rows_with_invertible_entries(restart_call=True)
+            rows_to_reduce = [row for row in noninvertible_rows if np.any(matrix[row])]
 
         return matrix
 
-- 
2.43.0


From e01589ccdcc63e964f725113fcfc8905853b411c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 14/64] fix: preserve the left span and independence of rows in
 RingArray.row_reduce

---
 qldpc/abstract.py | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index e6cf3e1..ed6fb2b 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -976,8 +976,8 @@ class RingArray(npt.NDArray[np.object_]):
         # greedily convert invertible entries into "pivots" that are uniquely nonzero in some column
         matrix = self._reduce_rows_with_invertible_entries()
 
-        # split matrix into rows with pivots, and all other rows
-        pivot_matrix, non_pivot_matrix = matrix._split_by_pivots()
+        # split matrix into rows with invertible pivots, and all other rows
+        pivot_matrix, non_pivot_matrix = matrix._split_by_pivots(allow_non_units=False)
 
         if non_pivot_matrix.size:
             # identify a minimal basis for the span of the non-pivot rows
@@ -1064,26 +1064,18 @@ class RingArray(npt.NDArray[np.object_]):
         """
         assert self.ndim == 2
 
-        # expand row vectors over the ring into row vectors over the field
-        field_vectors = self.to_field_array().reshape(len(self), -1).view(self.field)
-
-        # row-reduce over the field to find rows that are field-linearly independent
-        field_vectors = field_vectors.row_reduce()
-        field_vectors = field_vectors[np.any(field_vectors, axis=1)]  # remove all-zero rows
-        ring_matrix = RingArray.from_field_array(
-            self.ring, field_vectors.reshape(len(field_vectors), -1, self.group.order)
-        )
-
         """
-        Invert (transpose the entries of the matrix to make them right-acting (that is, to
-        transform coefficients that are to the left of each row vector), and lift to a matrix over
-        the field.
+        Expand row vectors over the ring into row vectors over the field, and collect all left-
+        multiples of these rows (by members of the group) into the rows of a field-valued matrix.
+        The rows of regular_lift() are left-multiples with transposed entries, so transpose entries
+        when expanding row vectors as well.
         """
-        field_matrix = (~ring_matrix).view(RingArray).regular_lift()
+        field_vectors = (~self).to_field_array().reshape(len(self), -1).view(self.field)
+        field_matrix = self.regular_lift()
 
         # throw out rows that can be expressed as ring-linear combinations of other rows
-        rows_to_keep = np.ones((len(ring_matrix), self.group.order), dtype=bool)
-        for row in range(len(ring_matrix) - 1, -1, -1):
+        rows_to_keep = np.ones((len(self), self.group.order), dtype=bool)
+        for row in range(len(self) - 1, -1, -1):
             rows_to_keep[row, :] = False
             linear_system = np.vstack([field_matrix[rows_to_keep.ravel()], field_vectors[row]])
             linear_system_rref = linear_system.T.view(self.field).row_reduce()
@@ -1092,7 +1084,7 @@ class RingArray(npt.NDArray[np.object_]):
                     rows_to_keep[row, :] = True
                     break
 
-        return ring_matrix[rows_to_keep[:, 0]].view(RingArray)
+        return self[rows_to_keep[:, 0]].view(RingArray)
 
 
 class Protograph(RingArray):  # pragma: no cover
-- 
2.43.0


From f279c4c5daa40ac28a417ab0ae564d6fba681870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 15/64] fix: shorten codes on bits that are zero in all code
 words, and on repeated bits

---
 qldpc/codes/common.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 2bac8f0..189f1a3 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -593,18 +593,19 @@ class ClassicalCode(AbstractCode):
     def shorten(self, *bits: int) -> ClassicalCode:
         """Shorten a code to the words that are zero on the specified bits, and delete those bits.
 
-        To shorten a code on a given bit, we:
-        - move the bit to the first position,
-        - row-reduce the generator matrix into the form [ identity_matrix, other_stuff ], and
-        - delete the first row and column from the generator matrix.
+        To shorten a code on the given bits, we:
+        - move these bits to the first positions,
+        - row-reduce the generator matrix,
+        - keep only the rows of the generator matrix that are zero on the first bits, and
+        - delete the columns of these bits from the generator matrix.
         """
         assert all(0 <= bit < len(self) for bit in bits)
-        generator = self.generator
-        for bit in sorted(bits, reverse=True):
-            generator = np.roll(generator, -bit, axis=1).view(self.field)
-            generator = generator.row_reduce()[1:, 1:]
-            generator = np.roll(generator, bit, axis=1).view(self.field)
-        return ClassicalCode.from_generator(generator)
+        bits_to_delete = sorted(set(bits))
+        bits_to_keep = [bit for bit in range(len(self)) if bit not in bits]
+        generator = self.generator[:, bits_to_delete + bits_to_keep].row_reduce()
+        zero_on_deleted_bits = ~np.any(generator[:, : len(bits_to_delete)], axis=1)
+        new_generator = generator[zero_on_deleted_bits, len(bits_to_delete) :]
+        return ClassicalCode.from_generator(new_generator, self.field.order)
 
     def get_logical_error_rate_func(
         self, num_samples: int, max_error_rate: float = 0.3, **decoder_args: Any
-- 
2.43.0


From d16530de5318c0fdb0198903e4452209f1ba0b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 16/64] fix: keep the rows of a provided generator matrix
 independent

---
 qldpc/codes/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 189f1a3..4f225c9 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -324,6 +324,9 @@ class ClassicalCode(AbstractCode):
                 f"Provided generator matrix has incorrect rank ({generator_rank} instead of"
                 f" {required_rank})"
             )
+        if len(generator) != generator_rank:
+            # remove linearly dependent rows
+            generator = generator.row_reduce()[:generator_rank]
         self._generator = generator
 
     def iter_words(self, skip_zero: bool = False) -> Iterator[galois.FieldArray]:
-- 
2.43.0


From 671d271843695554d46553da33a2870c9038a32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 17/64] fix: the ring code on one bit has a trivial parity
 check

---
 qldpc/codes/classical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/classical.py b/qldpc/codes/classical.py
index cfe34f2..bbe54bf 100644
--- a/qldpc/codes/classical.py
+++ b/qldpc/codes/classical.py
@@ -51,8 +51,8 @@ class RingCode(ClassicalCode):
         self._field = galois.GF(field or DEFAULT_FIELD_ORDER)
         self._matrix = self.field.Zeros((bits, bits))
         for row in range(bits):
-            self._matrix[row, row] = 1
-            self._matrix[row, (row + 1) % bits] = -self.field(1)
+            self._matrix[row, row] += self.field(1)
+            self._matrix[row, (row + 1) % bits] -= self.field(1)
 
         self._dimension = 1
         self._distance = bits
-- 
2.43.0


From 365777be361209331a46b14a2f098bc1db3ccefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 18/64] fix: Reed-Muller codes of order 0

---
 qldpc/codes/classical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/classical.py b/qldpc/codes/classical.py
index bbe54bf..08ea299 100644
--- a/qldpc/codes/classical.py
+++ b/qldpc/codes/classical.py
@@ -163,7 +163,7 @@ class ReedMullerCode(ClassicalCode):
         ReedMullerCode._assert_valid_params(order, size)
 
         if order == 0:
-            return np.ones(2**size, dtype=int)
+            return np.ones((1, 2**size), dtype=int)
         if order == size:
             return np.identity(2**size, dtype=int)
 
-- 
2.43.0


From 1f44e0b505b17ca4d346b5c7263cbe1698b91e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 19/64] fix: reject a field order that is inconsistent with the
 given parity check matrix

---
 qldpc/codes/common.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 4f225c9..a5d5933 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -107,6 +107,12 @@ class AbstractCode(abc.ABC):
             self._matrix = matrix
             self._field = type(matrix)
 
+            if field is not None and field != self._field.order:
+                raise ValueError(
+                    f"Field argument {field} is inconsistent with the given matrix, which is defined"
+                    f" over F_{self._field.order}"
+                )
+
         else:
             self._field = galois.GF(field or DEFAULT_FIELD_ORDER)
             self._matrix = np.asarray(matrix, dtype=int).view(self.field)
-- 
2.43.0


From 627ca56e9c3b55a954f9966662efe3e7e18bc558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 20/64] fix: TannerCode no longer modifies the graph that it is
 built from

---
 qldpc/codes/classical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/classical.py b/qldpc/codes/classical.py
index 08ea299..fd424c0 100644
--- a/qldpc/codes/classical.py
+++ b/qldpc/codes/classical.py
@@ -246,7 +246,7 @@ class TannerCode(ClassicalCode):
             edge = frozenset([node_a, node_b])
             directed_subgraph.add_edge(node_a, edge)
             directed_subgraph.add_edge(node_b, edge)
-            if (sort_data := edge_data.pop("sort", None)) is not None:
+            if (sort_data := edge_data.get("sort", None)) is not None:
                 directed_subgraph[node_a][edge]["sort"] = sort_data[node_a]
                 directed_subgraph[node_b][edge]["sort"] = sort_data[node_b]
         return directed_subgraph
-- 
2.43.0


From 8d2368d95b237c66e8cccabb92f4d54fc98722c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 21/64] fix: distances of codes with more than 255 bits

---
 qldpc/codes/distance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/distance.py b/qldpc/codes/distance.py
index aef6d44..fb5db36 100644
--- a/qldpc/codes/distance.py
+++ b/qldpc/codes/distance.py
@@ -252,7 +252,7 @@ def get_distance_quantum(
     # Number of generators to include in the operational array. Most calculations will then be
     # vectorized over ``2**block_size`` values
     num_vectorized_ops = min(
-        block_size + 1 - int_logical_ops.shape[-1],
+        max(block_size + 1 - int_logical_ops.shape[-1], 0),
         len(int_logical_ops) + len(int_stabilizers),
     )
 
@@ -277,7 +277,7 @@ def get_distance_quantum(
     bufs = [np.empty_like(arrayf) for _ in range(nbuf)]
 
     # Min weight of the part containing logical ops
-    weights = weight_func(arrayf[2**num_stabilizers :])
+    weights = weight_func(arrayf[2**num_stabilizers :]).astype(np.uint)
     min_weight = _inplace_rowsum(weights).min(initial=num_bits)
 
     for li in range(1, 2 ** len(int_logical_ops)):
-- 
2.43.0


From fbb816394e747708c67c4dfa1577ec2eed55753f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 22/64] fix: build a QuditCode from a CSSCode, and from the
 parity check matrix of a classical code

---
 qldpc/codes/common.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index a5d5933..e337e88 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -92,12 +92,13 @@ class AbstractCode(abc.ABC):
         The base field is taken to be F_2 by default.
         """
         if isinstance(matrix, AbstractCode):
-            self._matrix = matrix._matrix
-            self._field = matrix._field
-            self._dimension = matrix._dimension
-            self._distance = matrix._distance
+            self._matrix = matrix.matrix
+            self._field = matrix.field
+            if isinstance(matrix, ClassicalCode) is isinstance(self, ClassicalCode):
+                self._dimension = matrix._dimension
+                self._distance = matrix._distance
 
-            if field is not None and field != matrix._field.order:
+            if field is not None and field != matrix.field.order:
                 raise ValueError(
                     f"Field argument {field} is inconsistent with the given code, which is defined"
                     f" over F_{self._field.order}"
-- 
2.43.0


From 0ea4edb2e92120ae8ec92691fbb83cf4d441e690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 23/64] fix: reject logical operators of the same type that do
 not commute

---
 qldpc/codes/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index e337e88..538b2a0 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1188,6 +1188,10 @@ class QuditCode(AbstractCode):
                 raise ValueError("The given logical operators have incorrect commutation relations")
             if np.any(symplectic_conjugate(self.matrix) @ logical_ops.T):
                 raise ValueError("The given logical operators violate parity checks")
+            inner_products_xx = symplectic_conjugate(logical_ops_x) @ logical_ops_x.T
+            inner_products_zz = symplectic_conjugate(logical_ops_z) @ logical_ops_z.T
+            if np.any(inner_products_xx) or np.any(inner_products_zz):
+                raise ValueError("The given logical operators have incorrect commutation relations")
             if dimension != self.dimension:
                 raise ValueError("An incorrect number of logical operators was provided")
         self._logical_ops = logical_ops
-- 
2.43.0


From 104e2e2b954d191c230b5e6aecbc30f4e10f5566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:08 +0000
Subject: [PATCH 24/64] fix: logical operators of subsystem codes whose parity
 checks mix X-type and Z-type operators

---
 qldpc/codes/common.py | 101 +++++++++++++++++++++++++++---------------
 1 file changed, 65 insertions(+), 36 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 538b2a0..d169d8e 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -904,14 +904,17 @@ class QuditCode(AbstractCode):
         Due to the way that logical operators are constructed in this method, logical Z-type
         operators only address physical qudits by physical Z-type operators, while logical X-type
         operators address at least one physical qudit with a physical X-type operator, and may
-        additionally address physical qudits with physical Z-type operators.
+        additionally address physical qudits with physical Z-type operators.  The logical operators
+        of a subsystem code have this form if it has enough logical operators that only address
+        physical qudits by physical Z-type operators.
 
         Logical operators are constructed with the method similar to that in Section 4.1 of
-        Gottesman's thesis (arXiv:9705052), generalized for subsystem qudit codes.  The basic
-        strategy is to fix the values of the logical operator matrix in the GL sector of the parity
-        check matrix when written in standard form (see QuditCode.get_standard_form_data), and then
-        fill in the remaining entries of the logical operator matrix as required by parity check
-        constraints.
+        Gottesman's thesis (arXiv:9705052), generalized for qudit codes.  The basic strategy is to
+        fix the values of the logical operator matrix in the L sector of the parity check matrix
+        when written in standard form (see QuditCode.get_standard_form_data), and then fill in the
+        remaining entries of the logical operator matrix as required by parity check constraints.
+        The logical operators of a subsystem code are constructed by symplectic Gram-Schmidt
+        orthogonalization of the Pauli strings that commute with all parity checks.
         """
         assert pauli is None or pauli in PAULIS_XZ
 
@@ -923,6 +926,13 @@ class QuditCode(AbstractCode):
         if not (self._logical_ops is None or recompute):
             return self._logical_ops
 
+        # bare logical operators of a subsystem code: a symplectic basis for the Pauli strings that
+        # commute with all parity checks, modulo stabilizers
+        if self.is_subsystem_code:
+            bare_ops = symplectic_conjugate(self.canonicalized.matrix).null_space()
+            self._logical_ops = _get_symplectic_basis(bare_ops)
+            return self._logical_ops
+
         # construct the standard-form parity check matrix
         (
             matrix,
@@ -938,34 +948,8 @@ class QuditCode(AbstractCode):
         logicals_zz = self.field.Zeros((len(self), self.dimension))
 
         # "seed" the logical operators in the GL sector
-        if not self.is_subsystem_code:
-            logicals_xx[cols_lz] = self.field.Identity(self.dimension)
-            logicals_zz[cols_lx] = self.field.Identity(self.dimension)
-
-        else:
-            cols_gl = np.sort(_join_slices(cols_gx, cols_lx))  # indices for all GL columns
-            """
-            Focusing on the gauge-qudit rows (i.e., constraints) of the parity check matrix, define
-                A = matrix_z[rows_gz, cols_gl],
-                B = matrix_x[rows_gx, cols_gl],
-            and denode the logical operator components in the GL sector by
-                U = logicals_xx[cols_gl],
-                V = logicals_zz[cols_gl].
-            These components need to satisfy the system of matrix equations
-                (1) A @ U.T = 0,
-                (2) B @ V.T = 0,
-                (3) U.T @ V = I.
-            Without loss of generality, we can satisfy (1) and (2) by setting
-                U = null_space(A).T
-                V = null_space(B).T @ M,
-            where the matrix M is determined by subsituting U and V back into (3),
-                U.T @ W @ M = I.
-            """
-            mat_U = matrix_z[rows_gz, cols_gl].view(self.field).null_space().T
-            mat_W = matrix_x[rows_gx, cols_gl].view(self.field).null_space().T
-            mat_M = np.linalg.inv(mat_U.T @ mat_W)
-            logicals_xx[cols_gl] = mat_U
-            logicals_zz[cols_gl] = mat_W @ mat_M
+        logicals_xx[cols_lz] = self.field.Identity(self.dimension)
+        logicals_zz[cols_lx] = self.field.Identity(self.dimension)
 
         # fill in remaining entries by enforcing parity check constraints
         logicals_xx[cols_sz] = -matrix_z[rows_sz] @ logicals_xx
@@ -1790,8 +1774,24 @@ class CSSCode(QuditCode):
             logicals_z[cols_lx] = self.field.Identity(self.dimension)
 
         else:
-            # see QuditCode.get_logical_ops for an explanation of what's happening here
-            cols_gl = np.sort(_join_slices(cols_gx, cols_lx))
+            cols_gl = np.sort(_join_slices(cols_gx, cols_lx))  # indices for all GL columns
+            """
+            Focusing on the gauge-qudit rows (i.e., constraints) of the parity check matrix, define
+                A = matrix_z[rows_gz, cols_gl],
+                B = matrix_x[rows_gx, cols_gl],
+            and denode the logical operator components in the GL sector by
+                U = logicals_x[cols_gl],
+                V = logicals_z[cols_gl].
+            These components need to satisfy the system of matrix equations
+                (1) A @ U.T = 0,
+                (2) B @ V.T = 0,
+                (3) U.T @ V = I.
+            Without loss of generality, we can satisfy (1) and (2) by setting
+                U = null_space(A).T
+                V = null_space(B).T @ M,
+            where the matrix M is determined by subsituting U and V back into (3),
+                U.T @ W @ M = I.
+            """
             mat_U = matrix_z[rows_gz, cols_gl].view(self.field).null_space().T
             mat_W = matrix_x[rows_gx, cols_gl].view(self.field).null_space().T
             mat_M = np.linalg.inv(mat_U.T @ mat_W)
@@ -2443,6 +2443,35 @@ def _join_slices(*sectors: Slice) -> npt.NDArray[np.int_]:
     ).astype(int)
 
 
+def _get_symplectic_basis(vectors: galois.FieldArray) -> galois.FieldArray:
+    """Find dual pairs of vectors that span the given vectors, modulo those commuting with them all.
+
+    The first and second half of the rows of the returned matrix are, respectively, X-type and
+    Z-type operators, with dual pairs at the same index in each half.
+    """
+    field = type(vectors)
+    ops_x: list[galois.FieldArray] = []
+    ops_z: list[galois.FieldArray] = []
+    vectors = vectors.row_reduce()[::-1]  # start with operators that only have Z-type support
+    while len(vectors):
+        op_z, vectors = vectors[0], vectors[1:]
+        inner_products = symplectic_conjugate(vectors) @ op_z
+        if not np.any(inner_products):
+            continue
+        index = np.argmax(inner_products.view(np.ndarray) != 0)
+        op_x = vectors[index] / inner_products[index]
+        vectors = np.delete(vectors, index, axis=0).view(field)
+
+        # remove support on op_x and op_z from all other vectors
+        products_x = symplectic_conjugate(vectors) @ op_x
+        products_z = symplectic_conjugate(vectors) @ op_z
+        vectors = vectors + np.outer(products_x, op_z) - np.outer(products_z, op_x)
+        ops_x.append(op_x)
+        ops_z.append(op_z)
+
+    return np.array(ops_x + ops_z, dtype=int).reshape(-1, vectors.shape[1]).view(field)
+
+
 def _is_canonicalized(matrix: npt.NDArray[np.int_]) -> bool:
     """Is the given matrix in canonical (row-reduced) form?"""
     return all(
-- 
2.43.0


From 9af7d69179153840ffa116a572e3f1497d1e0bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 25/64] fix: canonicalize (and recompute) stabilizer operators
 of one type when requested

---
 qldpc/codes/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index d169d8e..9f8fc92 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1193,7 +1193,9 @@ class QuditCode(AbstractCode):
 
         # if requested, retrieve stabilizer operators of one type only
         if pauli is not None:
-            stabilizer_ops = self.get_stabilizer_ops()
+            stabilizer_ops = self.get_stabilizer_ops(
+                recompute=recompute, canonicalized=canonicalized
+            )
             pivots_x = first_nonzero_cols(stabilizer_ops) < len(self)
             return stabilizer_ops[pivots_x if pauli is Pauli.X else ~pivots_x]
 
-- 
2.43.0


From e5f42e31f4bcf15a2e9e623125cfc28acf93fc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 26/64] fix: conjugate codes over fields of odd characteristic
 by a symplectic transformation

---
 qldpc/codes/common.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 9f8fc92..c30b30e 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1363,15 +1363,21 @@ class QuditCode(AbstractCode):
         """Apply local Fourier transforms to data qudits, swapping X-type and Z-type operators."""
         if qudits is None:
             qudits = getattr(self, "_default_conjugate", ())
-        matrix_reshaped = self.matrix.copy().reshape(-1, 2, len(self))
-        matrix_reshaped[:, :, qudits] = matrix_reshaped[:, ::-1, qudits]
-        matrix = matrix_reshaped.reshape(-1, 2 * len(self))
-        code = QuditCode(matrix, field=self.field.order, is_subsystem_code=self.is_subsystem_code)
 
+        def conjugate(ops: galois.FieldArray) -> galois.FieldArray:
+            """Fourier transform the given Pauli strings, taking X_j -> Z_j and Z_j -> X_j^{-1}."""
+            conjugated_ops = ops.reshape(-1, 2, len(self)).copy()
+            dual_ops = symplectic_conjugate(ops).reshape(-1, 2, len(self))
+            conjugated_ops[:, :, qudits] = dual_ops[:, :, qudits]
+            return conjugated_ops.reshape(-1, 2 * len(self)).view(self.field)
+
+        code = QuditCode(
+            conjugate(self.matrix),
+            field=self.field.order,
+            is_subsystem_code=self.is_subsystem_code,
+        )
         if self._logical_ops is not None:
-            logical_ops = self._logical_ops.copy().reshape(-1, 2, len(self))
-            logical_ops[:, :, qudits] = logical_ops[:, ::-1, qudits]
-            code.set_logical_ops(logical_ops.reshape(-1, 2 * len(self)))
+            code.set_logical_ops(conjugate(self._logical_ops))
 
         return code
 
-- 
2.43.0


From 43f43241391af2143b28db11fb234b27852ac231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 27/64] fix: do not permute the logical operators of the inner
 code passed to QuditCode.concatenate

---
 qldpc/codes/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index c30b30e..0f64fa1 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -18,6 +18,7 @@ limitations under the License.
 from __future__ import annotations
 
 import abc
+import copy
 import functools
 import itertools
 import random
@@ -1550,7 +1551,8 @@ class QuditCode(AbstractCode):
         if (num_outer_blocks := len(outer_physical_to_inner_logical) // len(outer)) > 1:
             outer = outer.stack(*[outer] * num_outer_blocks)
 
-        # permute logical operators of the inner code
+        # permute logical operators of (a copy of) the inner code
+        inner = copy.copy(inner)
         inner._logical_ops = (
             inner.get_logical_ops()
             .reshape(2, inner.dimension, -1)[:, outer_physical_to_inner_logical, :]
-- 
2.43.0


From f7ab892e438f75de7a031a5cdf69cf5c214b2567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 28/64] fix: never increase the weight of a reduced logical
 operator, nor modify a shared array

---
 qldpc/codes/common.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 0f64fa1..f3b9320 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -2224,10 +2224,12 @@ class CSSCode(QuditCode):
             actual_syndrome = effective_check_matrix @ candidate_logical_op.view(self.field)
             logical_op_found = np.array_equal(actual_syndrome, effective_syndrome)
 
-        assert self._logical_ops is not None
-        self._logical_ops.shape = (2, self.dimension, 2, len(self))
-        self._logical_ops[pauli, logical_index, pauli, :] = candidate_logical_op
-        self._logical_ops.shape = (2 * self.dimension, 2 * len(self))
+        # keep the original logical operator unless we found one with a lower weight
+        weight = np.count_nonzero(self.get_logical_ops(pauli)[logical_index])
+        if np.count_nonzero(candidate_logical_op) < weight:
+            new_logical_ops = self.get_logical_ops().copy().reshape(2, self.dimension, 2, len(self))
+            new_logical_ops[pauli, logical_index, pauli, :] = candidate_logical_op
+            self._logical_ops = new_logical_ops.reshape(2 * self.dimension, 2 * len(self))
 
     def reduce_logical_ops(self, pauli: PauliXZ | None = None, **decoder_args: Any) -> None:
         """Reduce the weight of all logical operators."""
-- 
2.43.0


From b2e370a29d626df1ad53bf8855ff01f3f2b5f730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 29/64] fix: bound the distance of a vector from a code by a
 decoder that fails to correct it

---
 qldpc/codes/common.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index f3b9320..fa9c168 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -484,11 +484,12 @@ class ClassicalCode(AbstractCode):
         """
         if vector is not None:
             # find the distance of the given vector from a code word
-            correction = decoders.decode(
-                self.matrix,
-                self.matrix @ np.asarray(vector, dtype=int).view(self.field),
-                **decoder_args,
-            )
+            vector = np.asarray(vector, dtype=int).view(self.field)
+            syndrome = self.matrix @ vector
+            correction = decoders.decode(self.matrix, syndrome, **decoder_args)
+            if not np.array_equal(self.matrix @ correction.view(self.field), syndrome):
+                # decoding failed, so use the distance of the given vector from the all-0 code word
+                correction = vector
             return int(np.count_nonzero(correction))
 
         # effective syndrome: a trivial "actual" syndrome, and a nonzero overlap with a random word
-- 
2.43.0


From 96179f2457822b2f2d1267ecf929566d991f6963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 30/64] fix: do not correct a trivial syndrome, or share a
 lookup table, in LookupDecoder.decode

---
 qldpc/decoders.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index b350ebd..9fc1466 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -196,13 +196,15 @@ class LookupDecoder(Decoder):
                     code_error[:, error_site_indices] = np.asarray(errors, dtype=int).T
                     code_error = code_error.ravel()
                     syndrome = matrix @ code_error
+                    if not np.any(syndrome):
+                        continue  # this error is undetectable
                     self.table[tuple(syndrome.view(np.ndarray))] = code_error.view(np.ndarray)
 
         self.null_correction = np.zeros(matrix.shape[1], dtype=int)
 
     def decode(self, syndrome: npt.NDArray[np.int_]) -> npt.NDArray[np.int_]:
         """Decode an error syndrome and return an inferred error."""
-        return self.table.get(tuple(syndrome.view(np.ndarray)), self.null_correction.copy())
+        return self.table.get(tuple(syndrome.view(np.ndarray)), self.null_correction).copy()
 
 
 def get_symplectic_weight(vector: npt.NDArray[np.int_]) -> int:
-- 
2.43.0


From d5e98b53ab2ac615d3f3a23ca54fd157a5e5366b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 31/64] fix: weight of a code without parity checks

---
 qldpc/codes/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index fa9c168..6e16866 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -303,7 +303,7 @@ class ClassicalCode(AbstractCode):
 
     def get_weight(self) -> int:
         """Compute the weight of the largest parity check."""
-        return np.max(np.count_nonzero(self.matrix.view(np.ndarray), axis=1))
+        return np.max(np.count_nonzero(self.matrix.view(np.ndarray), axis=1), initial=0)
 
     @functools.cached_property
     def dimension(self) -> int:
@@ -884,7 +884,7 @@ class QuditCode(AbstractCode):
         """Compute the weight of the largest parity check."""
         matrix_x = self.matrix[:, : len(self)].view(np.ndarray)
         matrix_z = self.matrix[:, len(self) :].view(np.ndarray)
-        return np.max(np.count_nonzero(matrix_x | matrix_z, axis=1))
+        return np.max(np.count_nonzero(matrix_x | matrix_z, axis=1), initial=0)
 
     def get_logical_ops(
         self, pauli: PauliXZ | None = None, *, recompute: bool = False
-- 
2.43.0


From 869e539bdf9f804cd077c7e7ebf070895903c635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 32/64] fix: keep checks and bits without neighbors in Tanner
 graphs

---
 qldpc/codes/common.py  | 7 ++++++-
 qldpc/codes/quantum.py | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 6e16866..4c67831 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -282,6 +282,8 @@ class ClassicalCode(AbstractCode):
         """
         graph = nx.DiGraph()
         matrix = np.asanyarray(matrix)
+        graph.add_nodes_from(Node(index=row, is_data=False) for row in range(matrix.shape[0]))
+        graph.add_nodes_from(Node(index=col, is_data=True) for col in range(matrix.shape[1]))
         for row, col in zip(*np.nonzero(matrix)):
             node_c = Node(index=int(row), is_data=False)
             node_d = Node(index=int(col), is_data=True)
@@ -793,7 +795,10 @@ class QuditCode(AbstractCode):
     def matrix_to_graph(matrix: npt.NDArray[np.int_] | Sequence[Sequence[int]]) -> nx.DiGraph:
         """Convert a parity check matrix into a Tanner graph."""
         graph = nx.DiGraph()
-        matrix = np.reshape(matrix, (len(matrix), 2, -1))
+        matrix = np.asanyarray(matrix)
+        matrix = matrix.reshape(len(matrix), 2, matrix.shape[1] // 2)
+        graph.add_nodes_from(Node(index=row, is_data=False) for row in range(matrix.shape[0]))
+        graph.add_nodes_from(Node(index=col, is_data=True) for col in range(matrix.shape[2]))
         for row, xz, col in zip(*np.nonzero(matrix)):
             node_check = Node(index=int(row), is_data=False)
             node_qudit = Node(index=int(col), is_data=True)
diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 5d837e8..2dcb0aa 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -765,6 +765,7 @@ class HGPCode(CSSCode):
 
         # fix edge orientation, and tag each edge with a QuditOperator
         graph = nx.DiGraph()
+        graph.add_nodes_from(graph_product.nodes)
         for node_fst, node_snd, data in graph_product.edges(data=True):
             # identify the sectors of two nodes
             sector_fst = HGPCode.get_sector(*node_fst)
-- 
2.43.0


From d0e3204cae2a9961aff58b30e06b6dda2e4be1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 33/64] fix: bound distances with random words that overlap
 with some code word, so that decoding can succeed

---
 qldpc/codes/common.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 4c67831..cd7ec50 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -500,8 +500,11 @@ class ClassicalCode(AbstractCode):
 
         valid_candidate_found = False
         while not valid_candidate_found:
-            # construct an effective check matrix with a random nonzero word
-            random_word = get_random_array(self.field, len(self), satisfy=lambda vec: vec.any())
+            # construct an effective check matrix with a random word outside the dual code, which
+            # guarantees that it has nonzero overlap with some code word
+            random_word = get_random_array(
+                self.field, len(self), satisfy=lambda vec: np.any(self.generator @ vec)
+            )
             effective_check_matrix = np.vstack([self.matrix, random_word])
 
             # find a low-weight candidate code word
-- 
2.43.0


From d9f827598dcfb31b0504f158e2be7734df3ae3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:48 +0000
Subject: [PATCH 34/64] fix: deform codes with no logical operators

---
 qldpc/codes/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index cd7ec50..9db4e61 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1415,7 +1415,7 @@ class QuditCode(AbstractCode):
                 string = op_to_string(check)
                 xs_zs = tableau(string).to_numpy()
                 new_strings.append(np.concatenate(xs_zs))
-            return self.field(new_strings)
+            return self.field(np.array(new_strings, dtype=int).reshape(-1, 2 * len(self)))
 
         # deform this code by transforming its stabilizers
         matrix = deform_strings(self.matrix)
-- 
2.43.0


From bf2b4c8097ab070c8c10a82ae3a832fe9f8ad8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:57 +0000
Subject: [PATCH 35/64] fix: integer linear programs for decoding over odd
 prime fields

---
 qldpc/decoders.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index 9fc1466..44438ce 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -413,35 +413,29 @@ class ILPDecoder(Decoder):
             raise ValueError(message + f"\nSolver output: {result}")
 
         # return solution to the problem variables
-        return self.variables.value.astype(int)
+        return np.round(self.variables.value).astype(int)
 
     def cvxpy_constraints_for_syndrome(
         self, syndrome: npt.NDArray[np.int_]
     ) -> list[cvxpy.Constraint]:
         """Build cvxpy constraints of the form `matrix @ variables == syndrome (mod q)`.
 
-        This method uses boolean slack variables {s_j} to relax each constraint of the form
+        This method uses an integer slack variable s to relax each constraint of the form
         `expression = val mod q`
         to
-        `expression = val + sum_j q^j s_j`.
+        `expression = val + q s`.
         """
         syndrome = np.asarray(syndrome, dtype=int) % self.modulus
 
         constraints = []
-        for idx, (check, syndrome_bit) in enumerate(zip(self.matrix, syndrome)):
-            # identify the largest power of q needed for the relaxation
-            max_zero = int(sum(check) * (self.modulus - 1) - syndrome_bit)
-            if max_zero == 0 or self.modulus == 2:
-                max_power_of_q = max_zero.bit_length() - 1
-            else:
-                max_power_of_q = int(np.log2(max_zero) / np.log2(self.modulus))
-
-            if max_power_of_q > 0:
-                powers_of_q = [self.modulus**jj for jj in range(1, max_power_of_q + 1)]
-                slack_variables = cvxpy.Variable(max_power_of_q, boolean=True)
-                zero_mod_q = powers_of_q @ slack_variables
-            else:
-                zero_mod_q = 0
+        for check, syndrome_bit in zip(self.matrix, syndrome):
+            # identify the largest multiple of q needed for the relaxation
+            max_slack = int(sum(check) * (self.modulus - 1) - syndrome_bit) // self.modulus
+            zero_mod_q = 0
+            if max_slack > 0:
+                slack_variable = cvxpy.Variable(integer=True)
+                constraints += [slack_variable >= 0, slack_variable <= max_slack]
+                zero_mod_q = self.modulus * slack_variable
 
             constraint = check @ self.variables == syndrome_bit + zero_mod_q
             constraints.append(constraint)
-- 
2.43.0


From b9890f8ad28f32bde0c348d571062eac1e97c536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 36/64] fix: error probabilities by weight with a maximum
 weight of zero

---
 qldpc/codes/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 9db4e61..c51371e 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -2537,7 +2537,7 @@ def _get_error_probs_by_weight(
     We compute the above probability using logarithms because otherwise the combinatorial factor
     (n choose k) might be too large to handle.
     """
-    max_weight = max_weight or block_length
+    max_weight = max_weight if max_weight is not None else block_length
 
     # deal with some pathological cases
     if error_rate == 0:
-- 
2.43.0


From 1b23a8bf61858cb5b8dbecfc66473a4f0e51e718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 37/64] fix: compare quantum Tanner codes to one another

---
 qldpc/codes/quantum.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 2dcb0aa..120c9d8 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1146,11 +1146,11 @@ class QTCode(CSSCode):
     def __eq__(self, other: object) -> bool:
         return (
             isinstance(other, QTCode)
-            and other.code_a == other.code_a
-            and other.code_b == other.code_b
-            and other.complex.subset_a == other.complex.subset_a
-            and other.complex.subset_b == other.complex.subset_b
-            and other.complex.bipartite == other.complex.bipartite
+            and self.code_a == other.code_a
+            and self.code_b == other.code_b
+            and self.complex.subset_a == other.complex.subset_a
+            and self.complex.subset_b == other.complex.subset_b
+            and self.complex.bipartite == other.complex.bipartite
         )
 
     @staticmethod
-- 
2.43.0


From abddc0af3c920daff40a413606885665f05998fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:38 +0000
Subject: [PATCH 38/64] fix: load quantum Tanner codes built from seed codes
 with no parity checks

---
 qldpc/codes/quantum.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 120c9d8..bb50807 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1287,21 +1287,22 @@ class QTCode(CSSCode):
         field = ast.literal_eval(lines[-2].split(":")[-1])
         bipartite = ast.literal_eval(lines[-1].split(":")[-1])
 
-        # load integer arrays separated by comments
-        arrays = []
-        last_index = 0
-        for index, line in enumerate(lines):
-            if line.startswith("#"):
-                if index > last_index + 1:
-                    array = np.genfromtxt(lines[last_index + 1 : index], dtype=int, ndmin=2)
-                    arrays.append(array)
-                last_index = index
+        def load_rows(name: str) -> list[list[int]]:
+            """Load the rows of an integer array, which lie between two comments."""
+            start = len(lines) - lines[::-1].index(f"# {name}:")
+            rows = itertools.takewhile(lambda line: not line.startswith("#"), lines[start:])
+            return [list(map(int, row.split())) for row in rows]
+
+        def load_code(name: str, block_length: int) -> ClassicalCode:
+            """Load a classical code, which may have no parity checks."""
+            matrix = np.array(load_rows(f"{name}.matrix"), dtype=int).reshape(-1, block_length)
+            return ClassicalCode(matrix, field)
 
         # construct subsets and generating codes
-        subset_a = set(abstract.GroupMember(gen) for gen in arrays[0])
-        subset_b = set(abstract.GroupMember(gen) for gen in arrays[1])
-        code_a = ClassicalCode(arrays[2], field)
-        code_b = ClassicalCode(arrays[3], field)
+        subset_a = set(abstract.GroupMember(gen) for gen in load_rows("subset_a"))
+        subset_b = set(abstract.GroupMember(gen) for gen in load_rows("subset_b"))
+        code_a = load_code("code_a", len(subset_a))
+        code_b = load_code("code_b", len(subset_b))
         return QTCode(subset_a, subset_b, code_a, code_b, bipartite=bipartite)
 
 
-- 
2.43.0


From 3aaa646e011e138c9f6545226cd3de6da15a1bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:38 +0000
Subject: [PATCH 39/64] fix: order the qudits of a quantum Tanner code, and the
 matrices of PSL, reproducibly

---
 qldpc/abstract.py      |  4 ++--
 qldpc/codes/quantum.py | 20 +++++++++-----------
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index ed6fb2b..b3c03ae 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1506,8 +1506,8 @@ class ProjectiveSpecialLinearGroup(Group):
             frozenset([(root * mat).tobytes() for root in roots])
             for mat in SpecialLinearGroup.iter_mats(dimension, field)
         ]
-        for orbit in set(orbits):
-            matrix = np.frombuffer(next(iter(orbit)), dtype=np.uint8).view(base_field)
+        for orbit in dict.fromkeys(orbits):
+            matrix = np.frombuffer(min(orbit), dtype=np.uint8).view(base_field)
             yield matrix.reshape(dimension, dimension)
 
 
diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index bb50807..7e6bf2f 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1187,15 +1187,17 @@ class QTCode(CSSCode):
         then requires that edge (ag, f(g,a,b)) has label (a^-1, b), as verified by defining g' = ag
         and checking that f(g,a,b) = f(g',a^-1,b).
         """
-        subset_a = cayplex.cover_subset_a
-        subset_b = cayplex.cover_subset_b
+        # sort the subsets to build subgraphs with a reproducible order of nodes
+        subset_a = sorted(cayplex.cover_subset_a)
+        subset_b = sorted(cayplex.cover_subset_b)
 
         # identify the identity element
         member = next(iter(subset_a))
         identity = member * ~member
 
-        # identify the set of nodes for which we still need to add faces
-        nodes_to_add = set([identity])
+        # identify the nodes for which we still need to add faces, in the order they were found
+        nodes_to_add = [identity]
+        found_nodes = {identity}
 
         # build the subgraphs one node at a time
         subgraph_x = nx.DiGraph()
@@ -1203,10 +1205,6 @@ class QTCode(CSSCode):
         while nodes_to_add:
             gg = nodes_to_add.pop()
 
-            # identify nodes we have already covered, and new nodes we may need to cover
-            old_nodes = set(subgraph_x.nodes())
-            new_nodes = set()
-
             # add all faces adjacent to this node
             for aa, bb in itertools.product(subset_a, subset_b):
                 aa_gg, gg_bb = aa * gg, gg * bb
@@ -1215,9 +1213,9 @@ class QTCode(CSSCode):
                 subgraph_x.add_edge(gg, face, sort=(aa, bb))
                 subgraph_z.add_edge(aa_gg, face, sort=(~aa, bb))
 
-                new_nodes.add(aa_gg_bb)
-
-            nodes_to_add |= new_nodes - old_nodes
+                if aa_gg_bb not in found_nodes:
+                    found_nodes.add(aa_gg_bb)
+                    nodes_to_add.append(aa_gg_bb)
 
         return subgraph_x, subgraph_z
 
-- 
2.43.0


From 6421ae0975385f356fa8e6394e28b4b2b344b0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 40/64] fix: convert Tanner graphs that do not specify a field
 into matrices

---
 qldpc/codes/common.py  | 4 ++--
 qldpc/codes/quantum.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index c51371e..ce03308 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -297,7 +297,7 @@ class ClassicalCode(AbstractCode):
         """Convert a Tanner graph into a parity check matrix."""
         num_bits = sum(node.is_data for node in graph.nodes())
         num_checks = len(graph.nodes()) - num_bits
-        field = getattr(graph, "order", DEFAULT_FIELD_ORDER)
+        field = graph.order if isinstance(graph.order, int) else DEFAULT_FIELD_ORDER
         matrix = galois.GF(field).Zeros((num_checks, num_bits))
         for node_c, node_b, data in graph.edges(data=True):
             matrix[node_c.index, node_b.index] = data.get("val", 1)
@@ -831,7 +831,7 @@ class QuditCode(AbstractCode):
         for node_check, node_qudit, data in graph.edges(data=True):
             op = data.get(QuditOperator) or data.get(Pauli)
             matrix[node_check.index, :, node_qudit.index] = op.value
-        field = getattr(graph, "order", DEFAULT_FIELD_ORDER)
+        field = graph.order if isinstance(graph.order, int) else DEFAULT_FIELD_ORDER
         return galois.GF(field)(matrix.reshape(num_checks, 2 * num_qudits))
 
     def get_strings(self) -> list[str]:
diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 7e6bf2f..d67e93d 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -798,7 +798,7 @@ class HGPCode(CSSCode):
         graph = nx.relabel_nodes(graph, node_map)
 
         # remember order of the field, and use Pauli operators if appropriate
-        if hasattr(graph_a, "order"):
+        if isinstance(graph_a.order, int):
             graph.order = graph_a.order
             if graph.order == 2:
                 for _, __, data in graph.edges(data=True):
-- 
2.43.0


From e0c6d444462a4e83790f2221146d8ac96554eeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:28 +0000
Subject: [PATCH 41/64] fix: generalized union-find decoding of plain
 symplectic matrices

---
 qldpc/decoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index 44438ce..25c7e5c 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -261,7 +261,7 @@ class GUFDecoder(Decoder):
         else:
             # decoding a quantum code: the "weight" of an error vector is its symplectic weight
             self.get_weight = get_symplectic_weight
-            self.code = codes.QuditCode(symplectic_conjugate(matrix))
+            self.code = codes.QuditCode(symplectic_conjugate(codes.QuditCode(matrix).matrix))
 
         self.graph = self.code.graph.to_undirected()
 
-- 
2.43.0


From 75ec8b9067f4ac222caba4bd5dce5d20440d05d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:26 +0000
Subject: [PATCH 42/64] fix: quasi-cyclic codes with trivial cyclic groups or
 several unused ones

---
 qldpc/codes/quantum.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index d67e93d..043ff28 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -225,16 +225,21 @@ class QCCode(TBCode):
 
         # add more placeholder symbols if necessary
         while len(symbol_to_order) < len(orders):
-            unique_symbol = sympy.Symbol("~" + "".join(map(str, symbols)))
+            unique_symbol = sympy.Symbol("~" + "".join(map(str, symbol_to_order)))
             symbol_to_order[unique_symbol] = orders[len(symbol_to_order)]
 
         self.symbols = tuple(symbol_to_order.keys())
         self.orders = tuple(symbol_to_order.values())
 
-        # identify the group generator associated with each symbol
+        # identify the group generator associated with each symbol; trivial factors of the group
+        # have no generator of their own
         self.group = abstract.AbelianGroup(*self.orders)
         self.ring = abstract.GroupRing(self.group, field)
-        self.symbol_gens = dict(zip(self.symbols, self.group.generators))
+        generators = iter(self.group.generators)
+        self.symbol_gens = {
+            symbol: next(generators) if order > 1 else self.group.identity
+            for symbol, order in zip(self.symbols, self.orders)
+        }
 
         # build defining matrices of a generalized bicycle code; transpose the lift by convention
         matrix_a = self.eval(self.poly_a).lift().T
-- 
2.43.0


From 6eb1f2ce5a98da78e156886867515819e9f20efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:26 +0000
Subject: [PATCH 43/64] fix: evaluate polynomials with negative coefficients

---
 qldpc/codes/quantum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 043ff28..16bcbf9 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -257,7 +257,8 @@ class QCCode(TBCode):
         if isinstance(expression, (sympy.Integer, sympy.Symbol, sympy.Pow, sympy.Mul)):
             coeff, monomial = expression.as_coeff_Mul()
             member = self.to_group_member(monomial)
-            return abstract.RingMember(self.ring, (int(coeff), member))
+            scalar = self.ring.field(abs(int(coeff)))
+            return abstract.RingMember(self.ring, (scalar if coeff > 0 else -scalar, member))
 
         # evaluate a polynomial
         element = abstract.RingMember(self.ring)
-- 
2.43.0


From 505d85e95f8e69b0a26a11f310acfa0f88e69a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:22 +0000
Subject: [PATCH 44/64] fix: canonical forms and toric layouts of polynomials
 with one term or with coefficients

---
 qldpc/codes/quantum.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 16bcbf9..9719df2 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -309,15 +309,15 @@ class QCCode(TBCode):
 
         # canonialize and add one term ata time
         new_poly = sympy.core.numbers.Zero()
-        for term in poly.args:
+        for term in sympy.Add.make_args(poly.as_expr()):
             coeff, exponents = self.get_coefficient_and_exponents(term)
 
-            new_term = sympy.core.numbers.One()
+            new_term = coeff * sympy.core.numbers.One()
             for symbol, order in zip(self.symbols, orders):
                 new_exponent = exponents.get(symbol, 0) % order
                 if new_exponent > order / 2:
                     new_exponent -= order
-                new_term *= coeff * symbol**new_exponent
+                new_term *= symbol**new_exponent
 
             new_poly += new_term
 
@@ -499,8 +499,10 @@ class BBCode(QCCode):
             return []
 
         # identify individual monomials (terms without their coefficients) in the polynomials
-        monomials_a = [term.as_coeff_Mul()[1] for term in self.poly_a.as_expr().args]
-        monomials_b = [term.as_coeff_Mul()[1] for term in self.poly_b.as_expr().args]
+        terms_a = sympy.Add.make_args(self.poly_a.as_expr())
+        terms_b = sympy.Add.make_args(self.poly_b.as_expr())
+        monomials_a = [term.as_coeff_Mul()[1] for term in terms_a]
+        monomials_b = [term.as_coeff_Mul()[1] for term in terms_b]
 
         # identify collections of monomials that can be combined to obtain a toric layout
         toric_params = []
-- 
2.43.0


From ed637dfb5c91664367d11055aef05ca431138134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:28 +0000
Subject: [PATCH 45/64] fix: flag lifted product codes over non-abelian groups
 whose checks do not commute as subsystem codes

---
 qldpc/codes/quantum.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 9719df2..351eada 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1022,7 +1022,11 @@ class LPCode(CSSCode):
         # if Hadamard-transforming qudits, conjugate those in the (1, 1) sector by default
         self._default_conjugate = slice(self.sector_size[0, 0], None)
 
-        CSSCode.__init__(self, matrix_x.lift(), matrix_z.lift(), field, is_subsystem_code=False)
+        # the parity checks are only guaranteed to commute if members of the base group do
+        is_subsystem_code = False if matrix_a.group.is_abelian else None
+        CSSCode.__init__(
+            self, matrix_x.lift(), matrix_z.lift(), field, is_subsystem_code=is_subsystem_code
+        )
 
 
 class SLPCode(CSSCode):
-- 
2.43.0


From 4a1e47453a41622780a5f9c429585e2b2a2a8c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:34 +0000
Subject: [PATCH 46/64] fix: two-block codes built from matrices over a
 non-binary field

---
 qldpc/codes/quantum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 351eada..96d8c15 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -153,6 +153,7 @@ class TBCode(CSSCode):
         """Construct a two-block quantum code."""
         matrix_a = ClassicalCode(matrix_a, field).matrix
         matrix_b = ClassicalCode(matrix_b, field).matrix
+        field = type(matrix_a).order
         if validate and not np.array_equal(matrix_a @ matrix_b, matrix_b @ matrix_a):
             raise ValueError("The matrices provided for this TBCode are incompatible")
 
-- 
2.43.0


From 0d00ec2b3c568fdd9ce89de52c8f32fc3116eccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:34 +0000
Subject: [PATCH 47/64] fix: change the basis of polynomials with negative
 exponents

---
 qldpc/codes/quantum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 96d8c15..65b64f8 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -580,7 +580,7 @@ class BBCode(QCCode):
         new_polys = []
         for poly in polys:
             # expand (x, y) in terms of (g, h), then "rename" (g, h) to (x, y)
-            poly = poly.subs({self.symbols[0]: old_x, self.symbols[1]: old_y})
+            poly = poly.as_expr().subs({self.symbols[0]: old_x, self.symbols[1]: old_y})
             poly = poly.subs({symbol_new_x: self.symbols[0], symbol_new_y: self.symbols[1]})
 
             # add canonical form of this polynomial, with exponents in (-order/2, order/2]
-- 
2.43.0


From c8179cc60f67442051c1b0396a4e5db50f5d7749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:30 +0000
Subject: [PATCH 48/64] fix: rotated surface codes with a side of length one

---
 qldpc/codes/quantum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 65b64f8..6c55412 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1435,7 +1435,10 @@ class SurfaceCode(CSSCode):
                     # no Z-type parity checks on the left/right boundaries
                     checks_z.append(check)
 
-        return np.array(checks_x), np.array(checks_z)
+        # reshape to allow for a sector with no parity checks
+        matrix_x = np.array(checks_x, dtype=int).reshape(-1, rows * cols)
+        matrix_z = np.array(checks_z, dtype=int).reshape(-1, rows * cols)
+        return matrix_x, matrix_z
 
 
 class ToricCode(CSSCode):
-- 
2.43.0


From 594410d8ce2fb8eb3b143e792f5803552a16555e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:51 +0000
Subject: [PATCH 49/64] fix: tensor products of chain complexes with several
 links over a group algebra

---
 qldpc/objects.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qldpc/objects.py b/qldpc/objects.py
index f3e9950..4a24788 100644
--- a/qldpc/objects.py
+++ b/qldpc/objects.py
@@ -511,13 +511,16 @@ class ChainComplex:
 
         def get_zero_block(
             row_degs: tuple[int, int], col_degs: tuple[int, int]
-        ) -> npt.NDArray[np.int_]:
+        ) -> npt.NDArray[np.int_] | abstract.RingArray:
             """Get a zero matrix to fill in a block of a total boundary operator."""
             row_deg_a, row_deg_b = row_degs
             col_deg_a, col_deg_b = col_degs
             rows = chain_a.dim(row_deg_a) * chain_b.dim(row_deg_b)
             cols = chain_a.dim(col_deg_a) * chain_b.dim(col_deg_b)
-            return chain_field.Zeros((rows, cols))
+            zeros = chain_field.Zeros((rows, cols))
+            if isinstance(chain_a.ops[0], abstract.RingArray):
+                return abstract.RingArray.build(zeros, chain_a.ops[0].ring)
+            return zeros
 
         ops = []
         for degree in range(1, chain_a.num_links + chain_b.num_links + 1):
-- 
2.43.0


From 710c78c1a483665f7cbacbda1237eb296512f9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:51 +0000
Subject: [PATCH 50/64] fix: do not return invalid tensor products of chain
 complexes over non-abelian group algebras

---
 qldpc/objects.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qldpc/objects.py b/qldpc/objects.py
index 4a24788..4ddb9a8 100644
--- a/qldpc/objects.py
+++ b/qldpc/objects.py
@@ -551,4 +551,7 @@ class ChainComplex:
             ops = [op.view(chain_field) for op in ops]
         else:
             ops = [op.view(abstract.RingArray) for op in ops]
-        return ChainComplex(*ops, skip_validation=True)
+
+        # the boundary operators are only guaranteed to compose to zero over a commutative ring
+        is_commutative = chain_a.group is None or chain_a.group.is_abelian
+        return ChainComplex(*ops, skip_validation=is_commutative)
-- 
2.43.0


From 3f1748fb4a3e383068327731ca801a5953dc8aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 51/64] fix: reject non-qubit codes provided to circuit methods
 by keyword

---
 qldpc/circuits.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qldpc/circuits.py b/qldpc/circuits.py
index 598a373..be66d14 100644
--- a/qldpc/circuits.py
+++ b/qldpc/circuits.py
@@ -34,7 +34,10 @@ def restrict_to_qubits(func: Callable[..., stim.Circuit]) -> Callable[..., stim.
 
     @functools.wraps(func)
     def qubit_func(*args: object, **kwargs: object) -> stim.Circuit:
-        if any(isinstance(arg, codes.QuditCode) and arg.field.order != 2 for arg in args):
+        if any(
+            isinstance(arg, codes.QuditCode) and arg.field.order != 2
+            for arg in (*args, *kwargs.values())
+        ):
             raise ValueError("Circuit methods are only supported for qubit codes")
         return func(*args, **kwargs)
 
-- 
2.43.0


From 72dab2fbf7610413d56c79620d7873e6697e2a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 52/64] fix: make the automorphism group of a classical code
 act on all of its bits

---
 qldpc/codes/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index ce03308..ebe5193 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -580,7 +580,10 @@ class ClassicalCode(AbstractCode):
         matrix_str = "[" + ",".join(checks_str) + "]"
         code_str = f"CheckMatCode({matrix_str}, GF({self.field.order}))"
         group_str = "AutomorphismGroup" if self.field.order == 2 else "PermutationAutomorphismGroup"
-        return abstract.Group.from_name(f"{group_str}({code_str})")
+        group = abstract.Group.from_name(f"{group_str}({code_str})")
+        # make sure that the group acts on all bits, including the last bits if they never move
+        generators = [abstract.GroupMember(gen, size=len(self)) for gen in group.generators]
+        return abstract.Group(*generators, name=group.name)
 
     @staticmethod
     def stack(*codes: ClassicalCode) -> ClassicalCode:
-- 
2.43.0


From a281ac2e7b214d3b1ac637825bc2222a750bece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 53/64] fix: find code deformations that preserve the logical
 operators, rather than their duals

---
 qldpc/circuits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/circuits.py b/qldpc/circuits.py
index be66d14..a1acc9e 100644
--- a/qldpc/circuits.py
+++ b/qldpc/circuits.py
@@ -208,7 +208,7 @@ def get_transversal_automorphism_group(
     deformations for which the logical Pauli group of the original QuditCode is a valid choice of
     logical Pauli group for the deformed QuditCode.
     """
-    parity_checks = code.matrix if not deform_code else symplectic_conjugate(code.get_logical_ops())
+    parity_checks = code.matrix if not deform_code else code.get_logical_ops()
     matrix_x = parity_checks.reshape(-1, 2, len(code))[:, 0, :]
     matrix_z = parity_checks.reshape(-1, 2, len(code))[:, 1, :]
     if not local_gates or local_gates == {"H"}:
-- 
2.43.0


From 697cbaf0031c2fb858654fc2f0ce516010c7519c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 54/64] fix: make disk cache keys identify arguments
 faithfully, and tolerate concurrent eviction

---
 qldpc/cache.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/qldpc/cache.py b/qldpc/cache.py
index d4f217d..3b3ae04 100644
--- a/qldpc/cache.py
+++ b/qldpc/cache.py
@@ -18,6 +18,7 @@ limitations under the License.
 from __future__ import annotations
 
 import functools
+import inspect
 import os
 import sys
 from collections.abc import Callable, Hashable
@@ -48,6 +49,8 @@ def use_disk_cache(
         if running_with_pytest():
             return function
 
+        missing = object()  # marks an absent cache entry, distinct from any result
+
         @functools.wraps(function)
         def function_with_cache(*args: Hashable, **kwargs: Hashable) -> Any:
             # retrieve results from cache, if available
@@ -55,9 +58,16 @@ def use_disk_cache(
             if key_func is not None:
                 key = key_func(*args, **kwargs)
             else:
-                key = args + tuple(kwargs.items())
-            if key in cache:
-                return cache[key]
+                # identify equivalent ways to pass the same arguments, and mark where the arguments
+                # that can only be passed by keyword begin, to not confuse them with positional ones
+                bound = inspect.signature(function).bind(*args, **kwargs)
+                bound.apply_defaults()
+                key = bound.args
+                if bound.kwargs:
+                    key += ("**kwargs", *sorted(bound.kwargs.items()))
+            cached_result = cache.get(key, missing)
+            if cached_result is not missing:
+                return cached_result
 
             # compute results and save to cache
             result = function(*args, **kwargs)
-- 
2.43.0


From 00e7e179a4cd7b19a7e730403e9ef307070918d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 55/64] fix: embed subfield coefficients of idempotents into
 the base field

---
 qldpc/external/groups.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qldpc/external/groups.py b/qldpc/external/groups.py
index 6185b9f..64173ff 100644
--- a/qldpc/external/groups.py
+++ b/qldpc/external/groups.py
@@ -271,13 +271,15 @@ def get_primitive_central_idempotents(
         for ring_term_match in re_ring_term.finditer(ring_member_match.group()):
             coefficient_string, cycles_string = ring_term_match.group().split("*")
 
-            # convert "Z(p^k)^m" into galois.GF(field)(galois.GF(p**k).primitive_element ** m)
+            # convert "Z(p^k)^m" into an element of galois.GF(field): the generator Z(p^k) of a subfield
+            # is the power (field - 1) / (p^k - 1) of the primitive element of galois.GF(field)
             coefficient_match = re_coefficient_components.match(coefficient_string)
             assert coefficient_match is not None
             pp = int(coefficient_match.group(1))
             kk = int(coefficient_match.group(2) or 1)
             mm = int(coefficient_match.group(3) or 1)
-            coefficient = galois.GF(field)(galois.GF(pp**kk).primitive_element ** mm)
+            subfield_index = (field - 1) // (pp**kk - 1)
+            coefficient = galois.GF(field).primitive_element ** (subfield_index * mm)
 
             # extract and 0-index cycles
             cycles = tuple(
-- 
2.43.0


From 8b82f6935fec68a814e3d0253f809a007830c301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 56/64] fix: reject malformed group generators and group names
 instead of guessing

---
 qldpc/external/groups.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/qldpc/external/groups.py b/qldpc/external/groups.py
index 64173ff..4bd29ed 100644
--- a/qldpc/external/groups.py
+++ b/qldpc/external/groups.py
@@ -119,8 +119,11 @@ def get_generators_with_gap(group: str) -> GENERATORS_LIST | None:
     # collect generators
     generators = []
     for line in generators_str.splitlines():
-        if not line.strip():
+        line = line.strip()
+        if not line:
             continue
+        if not re.fullmatch(r"(\([\d,\s]*\))+", line):
+            raise ValueError(f"Cannot extract cycles from string: {line}")
 
         # extract list of cycles, where each cycle is a tuple of integers
         cycles_str = line[1:-1].split(")(")
@@ -140,7 +143,7 @@ def get_generators_from_groupnames(group: str) -> GENERATORS_LIST | None:
     """Retrieve GAP group generators from GroupNames.org."""
 
     # extract order and index of a SmallGroup
-    match = re.match(r"SmallGroup\(([0-9]+),([0-9]+)\)", group)
+    match = re.fullmatch(r"SmallGroup\(([0-9]+),([0-9]+)\)", group)
     if match:
         order, index = map(int, match.groups())
     else:
@@ -170,6 +173,8 @@ def get_generators_from_groupnames(group: str) -> GENERATORS_LIST | None:
     # build generators
     generators = []
     for string in gen_strings:
+        if not re.fullmatch(r"(\([\d\s]*\))+", string):
+            raise ValueError(f"Cannot extract cycles from string: {string}")
         cycles_str = string[1:-1].split(")(")
         cycles = [tuple(map(int, cycle.split())) for cycle in cycles_str]
 
-- 
2.43.0


From 7dc76e30e9a7dd83c1bd62975fea23d158c112b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 57/64] fix: treat GAP runs that fail or get killed as errors

---
 qldpc/external/gap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qldpc/external/gap.py b/qldpc/external/gap.py
index c336a87..51a9fa9 100644
--- a/qldpc/external/gap.py
+++ b/qldpc/external/gap.py
@@ -56,9 +56,9 @@ def get_output(*commands: str) -> str:
     commands = sanitize_commands(commands)
     shell_commands = ["gap", "-l", f";{GAP_ROOT}", "-q", "--quitonbreak", "-c", " ".join(commands)]
     result = subprocess.run(shell_commands, capture_output=True, text=True)
-    if result.stderr:
+    if result.stderr or result.returncode:
         raise ValueError(
-            f"Error encountered when running GAP:{result.stderr}\n\n"
+            f"Error encountered when running GAP (exit code {result.returncode}):{result.stderr}\n\n"
             f"GAP command:\n{' '.join(commands)}"
         )
     return result.stdout
-- 
2.43.0


From 9303cd9f027e5e38b741521e5f63cd61a5555fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 58/64] fix: recognize successful GAP package installations

---
 qldpc/external/gap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qldpc/external/gap.py b/qldpc/external/gap.py
index 51a9fa9..e1e989b 100644
--- a/qldpc/external/gap.py
+++ b/qldpc/external/gap.py
@@ -78,6 +78,7 @@ def require_package(name: str) -> None:
             commands = [
                 "git",
                 "clone",
+                "--quiet",  # otherwise a successful git-clone prints progress to stderr
                 f"https://github.com/gap-packages/{name.lower()}",
                 os.path.join(GAP_ROOT, "pkg", name.lower()),
             ]
-- 
2.43.0


From 0546fc200f6ce3c649b4ef26d453b28e17b43f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 59/64] fix: handle codes whose instrumental code has no
 automorphisms

---
 qldpc/circuits.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qldpc/circuits.py b/qldpc/circuits.py
index a1acc9e..dc36ead 100644
--- a/qldpc/circuits.py
+++ b/qldpc/circuits.py
@@ -259,6 +259,8 @@ def _sympy_group_intersection_generators(
     group_a: abstract.Group, group_b: abstract.Group
 ) -> tuple[tuple[int, ...], ...]:
     """Get the generators of the intersection of two Sympy permutation groups."""
+    if group_a.to_sympy().is_trivial:
+        return group_a.hashable_generators()  # SymPy cannot search for subgroups of a trivial group
     group_sympy = group_a.to_sympy().subgroup_search(group_b.to_sympy().contains)
     return abstract.Group(group_sympy).hashable_generators()
 
-- 
2.43.0


From 028d5be4b807b4af0197634c8cf9fdc0b4ae3e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:16 +0000
Subject: [PATCH 60/64] fix: reject codes whose base field cannot be identified

---
 qldpc/external/codes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qldpc/external/codes.py b/qldpc/external/codes.py
index ae8475e..6259516 100644
--- a/qldpc/external/codes.py
+++ b/qldpc/external/codes.py
@@ -25,7 +25,7 @@ import qldpc.external.gap
 
 
 @qldpc.cache.use_disk_cache("codes")
-def get_code(code: str) -> tuple[list[list[int]], int | None]:
+def get_code(code: str) -> tuple[list[list[int]], int]:
     """Retrieve a group from GAP."""
 
     if not qldpc.external.gap.is_installed():
@@ -57,5 +57,7 @@ def get_code(code: str) -> tuple[list[list[int]], int | None]:
 
     if not checks:
         raise ValueError(f"Code has no parity checks: {code}")
+    if field is None:
+        raise ValueError(f"Cannot identify the base field of code: {code}")
 
     return checks, field
-- 
2.43.0


From a9ca8cebb3eb28a0efd582b07cc05678ceefcd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:46 +0000
Subject: [PATCH 61/64] fix: stabilizer operators of codes that preset them do
 not change once canonicalized ones are requested

---
 qldpc/codes/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index ebe5193..54f9e52 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1223,7 +1223,9 @@ class QuditCode(AbstractCode):
             self._stabilizer_ops = symplectic_conjugate(stabs_and_gauges_and_logs).null_space()
 
         if canonicalized and not _is_canonicalized(self._stabilizer_ops):
-            self._stabilizer_ops = self.get_stabilizer_ops(recompute=True)
+            # leave self._stabilizer_ops as it is, so that the answers to later queries do not change
+            stabilizer_ops = self._stabilizer_ops.row_reduce()
+            return stabilizer_ops[np.any(stabilizer_ops, axis=1)]
 
         return self._stabilizer_ops
 
-- 
2.43.0


From ca4b01e16a546a6118609f9153b7a32f9efac2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:08 +0000
Subject: [PATCH 62/64] fix: convert empty RingArrays (such as null spaces of
 full-rank matrices) to field arrays and vectors

---
 qldpc/abstract.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index b3c03ae..a9f85ee 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -891,6 +891,8 @@ class RingArray(npt.NDArray[np.object_]):
 
         This method is the inverse of RingArray.from_field_array.
         """
+        if not self.size:
+            return self.field.Zeros(self.shape + (self.group.order,))
         vals = [val.to_vector() for val in self.ravel()]
         return np.asarray(vals).reshape(self.shape + (self.group.order,)).view(self.field)
 
@@ -905,8 +907,7 @@ class RingArray(npt.NDArray[np.object_]):
     def to_field_vector(self) -> galois.FieldArray:
         """Convert a RingArray into a vector of coefficients."""
         assert self.ndim == 1
-        vals = [val.to_vector() for val in self.ravel()]
-        return np.asarray(vals).ravel().view(self.field)
+        return self.to_field_array().ravel()
 
     def null_space(self, *, force_heuristic: bool = True) -> RingArray:
         """Construct a matrix of null-space row vectors for this RingArray.
-- 
2.43.0


From f9637f23483e958e4d15bd855f75290b88a3d5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:00 +0000
Subject: [PATCH 63/64] fix: accept the block lengths of BCH codes over fields
 with more than ten elements

---
 qldpc/codes/classical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/classical.py b/qldpc/codes/classical.py
index fd424c0..be80f63 100644
--- a/qldpc/codes/classical.py
+++ b/qldpc/codes/classical.py
@@ -127,8 +127,10 @@ class BCHCode(ClassicalCode):
 
     def __init__(self, length: int, dimension: int, field: int | None = None) -> None:
         field = field or DEFAULT_FIELD_ORDER
-        length_in_base = np.base_repr(length, base=field)
-        if not length_in_base == str(field - 1) * len(length_in_base):
+        power = field
+        while power <= length:
+            power *= field
+        if length != power - 1:
             raise ValueError(
                 f"BCH codes over F_{field} are only defined for block lengths {field}^m - 1 with"
                 " integer m."
-- 
2.43.0


From 38d5db0986665cdaaf880cf0a050bc069508c37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:43 +0000
Subject: [PATCH 64/64] fix: cache keys keep keyword-only arguments apart from
 every combination of positional ones

---
 qldpc/cache.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/qldpc/cache.py b/qldpc/cache.py
index 3b3ae04..bbd08df 100644
--- a/qldpc/cache.py
+++ b/qldpc/cache.py
@@ -58,13 +58,17 @@ def use_disk_cache(
             if key_func is not None:
                 key = key_func(*args, **kwargs)
             else:
-                # identify equivalent ways to pass the same arguments, and mark where the arguments
-                # that can only be passed by keyword begin, to not confuse them with positional ones
-                bound = inspect.signature(function).bind(*args, **kwargs)
+                # identify equivalent ways to pass the same arguments, and keep apart the arguments
+                # that can only be passed by keyword, to not confuse them with positional ones
+                signature = inspect.signature(function)
+                bound = signature.bind(*args, **kwargs)
                 bound.apply_defaults()
                 key = bound.args
-                if bound.kwargs:
-                    key += ("**kwargs", *sorted(bound.kwargs.items()))
+                if any(
+                    parameter.kind in (parameter.KEYWORD_ONLY, parameter.VAR_KEYWORD)
+                    for parameter in signature.parameters.values()
+                ):
+                    key = (key, tuple(sorted(bound.kwargs.items())))
             cached_result = cache.get(key, missing)
             if cached_result is not missing:
                 return cached_result
-- 
2.43.0

