From 17964eb80b744ad4220e1ff2af7e9709cd35dff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 01/48] fix: keep elites as-is instead of passing them through
 the operators

---
 eckity/breeders/simple_breeder.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/eckity/breeders/simple_breeder.py b/eckity/breeders/simple_breeder.py
index 6836646..9e90a47 100644
--- a/eckity/breeders/simple_breeder.py
+++ b/eckity/breeders/simple_breeder.py
@@ -48,7 +48,7 @@ class SimpleBreeder(Breeder):
                         f"dividable by population size"
                     )
 
-            nextgen_population = []
+            elites = []
 
             num_elites = subpopulation.n_elite
             if num_elites > 0:
@@ -57,20 +57,22 @@ class SimpleBreeder(Breeder):
                     higher_is_better=subpopulation.higher_is_better,
                 )
                 elitism_sel.apply_operator(
-                    (subpopulation.individuals, nextgen_population)
+                    (subpopulation.individuals, elites)
                 )
 
             self.selected_individuals = subpopulation.get_selection_methods()[
                 0
-            ][0].select(subpopulation.individuals, nextgen_population)
+            ][0].select(subpopulation.individuals, [])
 
-            # then runs all operators on next_gen
-            nextgen_population = self._apply_operators(
+            # then runs all operators on the selected individuals
+            offspring = self._apply_operators(
                 subpopulation.get_operators_sequence(),
                 self.selected_individuals,
             )
 
-            subpopulation.individuals = nextgen_population
+            # elites are copied as-is, offspring take the remaining slots
+            n_offspring = len(offspring) - len(elites)
+            subpopulation.individuals = elites + offspring[:n_offspring]
 
     def _apply_operators(self, operator_seq, individuals_to_apply_on):
         """
-- 
2.43.0


From 6ef423e53a5bdcf4760c20bdfb80d0decb2e23c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 02/48] fix: k-point crossover swaps the segments between the
 chosen points

---
 .../genetic_operators/crossovers/vector_k_point_crossover.py   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_operators/crossovers/vector_k_point_crossover.py b/eckity/genetic_operators/crossovers/vector_k_point_crossover.py
index d58fb19..57f26c0 100644
--- a/eckity/genetic_operators/crossovers/vector_k_point_crossover.py
+++ b/eckity/genetic_operators/crossovers/vector_k_point_crossover.py
@@ -85,4 +85,5 @@ class VectorKPointsCrossover(GeneticOperator):
             replaced_part = vector1[start_idx:end_idx]
             vector1[start_idx:end_idx] = vector2[start_idx:end_idx]
             vector2[start_idx:end_idx] = replaced_part
-            start_idx = xo_points[i + 1] if end_idx < len(xo_points) else -1
+            if i + 1 < len(xo_points):
+                start_idx = xo_points[i + 1]
-- 
2.43.0


From e4ad18a17ffa0a865febecdfc1653157f9f7afb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 03/48] fix: NSGA2 comparison prefers the lower front rank

---
 eckity/multi_objective_evolution/nsga2_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/multi_objective_evolution/nsga2_fitness.py b/eckity/multi_objective_evolution/nsga2_fitness.py
index 3bc7714..a5c29d5 100644
--- a/eckity/multi_objective_evolution/nsga2_fitness.py
+++ b/eckity/multi_objective_evolution/nsga2_fitness.py
@@ -82,7 +82,7 @@ class NSGA2Fitness(Fitness):
             self.check_comparable_fitnesses(other_fitness, ind, other_ind)
             if self.front_rank == other_ind.fitness.front_rank:
                 return self.crowding > other_ind.fitness.crowding
-            return self.front_rank > other_ind.fitness.front_rank
+            return self.front_rank < other_ind.fitness.front_rank
 
     def equal_to(self, ind, other_fitness, other_ind):
         return (
-- 
2.43.0


From dc2ee9bd645cae7930758761bccce0c1794dae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 04/48] fix: NSGA2 front sorting order does not depend on
 object addresses

---
 eckity/multi_objective_evolution/nsga2_front_sorting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eckity/multi_objective_evolution/nsga2_front_sorting.py b/eckity/multi_objective_evolution/nsga2_front_sorting.py
index 3e34ef2..1219128 100644
--- a/eckity/multi_objective_evolution/nsga2_front_sorting.py
+++ b/eckity/multi_objective_evolution/nsga2_front_sorting.py
@@ -58,7 +58,9 @@ class NSGA2FrontSorting():
 		for dominating_ind in pareto_front:
 			for dominated_ind in self.domination_dict[dominating_ind].dominates:
 				self.domination_dict[dominated_ind].domination_counter -= 1
-		return list(set(source_inds) - set(pareto_front))
+		# keep the source order: set order depends on memory addresses
+		removed = set(pareto_front)
+		return [ind for ind in source_inds if ind not in removed]
 
 	def _update_new_pareto_front_rank(self, new_pareto_front: List[Individual], front_rank: int):
 		for ind in new_pareto_front:
-- 
2.43.0


From 8f43566a2aeffb17e358c30353cea14e90b9e2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 05/48] fix: final_generation_ is set when the run reaches
 max_generation

---
 eckity/algorithms/algorithm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eckity/algorithms/algorithm.py b/eckity/algorithms/algorithm.py
index fdb24fb..dbecd8e 100644
--- a/eckity/algorithms/algorithm.py
+++ b/eckity/algorithms/algorithm.py
@@ -176,11 +176,11 @@ class Algorithm(Operator, ABC):
         and finally finishing the evolution process
         """
         self.initialize()
+        self.final_generation_ = 0
 
         if self.should_terminate(
             self.population, self.best_of_run_, self.generation_num
         ):
-            self.final_generation_ = 0
             self.publish("after_generation")
         else:
             self.evolve_main_loop()
@@ -285,8 +285,8 @@ class Algorithm(Operator, ABC):
 
             self.set_generation_seed(self.next_seed())
             self.generation_iteration(gen)
+            self.final_generation_ = gen
             if self.should_terminate(self.population, self.best_of_run_, gen):
-                self.final_generation_ = gen
                 self.publish("after_generation")
                 break
             self.publish("after_generation")
-- 
2.43.0


From 42a40f0cf3f13a3e003f3e5f8f28af419a367894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 06/48] fix: submit executor method stores fitness scores, not
 individuals

---
 eckity/evaluators/simple_population_evaluator.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/eckity/evaluators/simple_population_evaluator.py b/eckity/evaluators/simple_population_evaluator.py
index e0f1b54..d61c6ef 100644
--- a/eckity/evaluators/simple_population_evaluator.py
+++ b/eckity/evaluators/simple_population_evaluator.py
@@ -48,9 +48,7 @@ class SimplePopulationEvaluator(PopulationEvaluator):
 
         if self.executor_method == "submit":
             eval_futures = [
-                self.executor.submit(
-                    sp_eval.evaluate, ind, sub_population.individuals
-                )
+                self.executor.submit(sp_eval.evaluate_individual, ind)
                 for ind in sub_population.individuals
             ]
             eval_results = [future.result() for future in eval_futures]
-- 
2.43.0


From 5b25dec63192c59e7d4fea7f4799ed668e575e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 07/48] fix: default mutated value getter of
 VectorNPointMutation

---
 eckity/genetic_operators/mutations/vector_n_point_mutation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_operators/mutations/vector_n_point_mutation.py b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
index 253c623..71a701b 100644
--- a/eckity/genetic_operators/mutations/vector_n_point_mutation.py
+++ b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
@@ -69,7 +69,7 @@ class VectorNPointMutation(FailableOperator):
 
     @staticmethod
     def default_mut_val_getter(vec: Vector, idx: int) -> Union[int, float]:
-        return vec.get_random_number_in_bounds(vec, idx)
+        return vec.get_random_number_in_bounds(idx)
 
     @staticmethod
     def default_success_checker(old_vec: Vector, new_vec: Vector) -> bool:
-- 
2.43.0


From 764fc8b28f85493ee3db4a6c3324810db10ad704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 08/48] fix: a failed vector mutation returns the individuals
 unchanged

---
 eckity/genetic_operators/mutations/vector_n_point_mutation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_operators/mutations/vector_n_point_mutation.py b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
index 71a701b..e0fe527 100644
--- a/eckity/genetic_operators/mutations/vector_n_point_mutation.py
+++ b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
@@ -133,4 +133,4 @@ class VectorNPointMutation(FailableOperator):
         payload : object
             relevant data for on_fail (usually the individuals that the mutation was attempted to be applied on)
         """
-        pass
+        return payload
-- 
2.43.0


From 4ce13e8d56c3ef4dd2a698ae50351845f31d1c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 09/48] fix: a failed mutation attempt reverts all the
 individuals it mutated

---
 .../genetic_operators/mutations/vector_n_point_mutation.py  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_operators/mutations/vector_n_point_mutation.py b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
index e0fe527..352e5e1 100644
--- a/eckity/genetic_operators/mutations/vector_n_point_mutation.py
+++ b/eckity/genetic_operators/mutations/vector_n_point_mutation.py
@@ -100,9 +100,11 @@ class VectorNPointMutation(FailableOperator):
             second return value is the operator result
         """
         succeeded = True
+        old_individuals = []
         for individual in individuals:
             # clone the individual to revert in case of failure
             old_individual = individual.clone()
+            old_individuals.append(old_individual)
 
             # randomly select n points of the vector (without repetitions)
             m_points = self.cell_selector(individual)
@@ -118,7 +120,9 @@ class VectorNPointMutation(FailableOperator):
 
             if not self.success_checker(old_individual, individual):
                 succeeded = False
-                individual.set_vector(old_individual.vector)
+                # a failed attempt must not leave any individual mutated
+                for ind, old_ind in zip(individuals, old_individuals):
+                    ind.set_vector(old_ind.vector)
                 break
 
         self.applied_individuals = individuals
-- 
2.43.0


From 384b384d65d49571b60e689e11f4972e5ab20114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 10/48] fix: bounds check of vectors with two per-cell bounds

---
 eckity/genetic_encodings/ga/vector_individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/ga/vector_individual.py b/eckity/genetic_encodings/ga/vector_individual.py
index 8e6939e..42f015b 100644
--- a/eckity/genetic_encodings/ga/vector_individual.py
+++ b/eckity/genetic_encodings/ga/vector_individual.py
@@ -89,7 +89,7 @@ class Vector(Individual):
             True if all vector cells are in bounds, False otherwise
         """
         for i in range(self.size()):
-            if len(self.bounds) == 2:
+            if type(self.bounds) == tuple:
                 if (self.vector[i] < self.bounds[0]) or (
                     self.vector[i] > self.bounds[1]
                 ):
-- 
2.43.0


From 96e48513f6b71902dc78da3f7c73e55e5bfd2a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 11/48] fix: swapped default bounds of IntVector

---
 eckity/genetic_encodings/ga/int_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eckity/genetic_encodings/ga/int_vector.py b/eckity/genetic_encodings/ga/int_vector.py
index aa99d3f..2324e76 100644
--- a/eckity/genetic_encodings/ga/int_vector.py
+++ b/eckity/genetic_encodings/ga/int_vector.py
@@ -6,8 +6,8 @@ from random import randint
 
 from eckity.genetic_encodings.ga.vector_individual import Vector
 
-MIN_BOUND = 2**31 - 1
-MAX_BOUND = -(2**31)
+MIN_BOUND = -(2**31)
+MAX_BOUND = 2**31 - 1
 
 
 class IntVector(Vector):
-- 
2.43.0


From f86e1243d5c75c6a34659d585f92bf0f1680820e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 12/48] fix: per-cell bounds of BitStringVector

---
 eckity/genetic_encodings/ga/bit_string_vector.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/eckity/genetic_encodings/ga/bit_string_vector.py b/eckity/genetic_encodings/ga/bit_string_vector.py
index d18bbc2..aaa965b 100644
--- a/eckity/genetic_encodings/ga/bit_string_vector.py
+++ b/eckity/genetic_encodings/ga/bit_string_vector.py
@@ -53,13 +53,18 @@ class BitStringVector(Vector):
         int
             random value according to bounds field
         """
-        return randint(self.bounds[0], self.bounds[1])
+        low, high = self._cell_bounds(index)
+        return randint(low, high)
 
     def bit_flip(self, index):
         """
         Flip the bit in the given index.
         """
-        return self.bounds[1] \
-            if self.cell_value(index) == self.bounds[0] else self.bounds[0]
+        low, high = self._cell_bounds(index)
+        return high if self.cell_value(index) == low else low
+
+    def _cell_bounds(self, index):
+        return self.bounds \
+            if type(self.bounds) == tuple else self.bounds[index]
 
 # end class bit string vector
-- 
2.43.0


From b4603b587f5ec1f8303d4e5bd44946034c41ab21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 13/48] fix: default bounds of GAVectorCreator fit its default
 bit vectors

---
 eckity/creators/ga_creators/simple_vector_creator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/creators/ga_creators/simple_vector_creator.py b/eckity/creators/ga_creators/simple_vector_creator.py
index 4d949e6..836f215 100644
--- a/eckity/creators/ga_creators/simple_vector_creator.py
+++ b/eckity/creators/ga_creators/simple_vector_creator.py
@@ -8,7 +8,7 @@ class GAVectorCreator(Creator):
         self,
         length=1,
         gene_creator=None,
-        bounds=(0.0, 1.0),
+        bounds=(0, 1),
         vector_type=BitStringVector,
         fitness_type=SimpleFitness,
         events=None,
-- 
2.43.0


From 76538890e2577a85e9d7d24a74736c54e93d99b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 14/48] fix: ephemeral constants are only placed where their
 type is expected

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 58fa8d4..c6f03e5 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -203,7 +203,7 @@ class Tree(Individual):
         ]
 
         if self.erc_range is not None and (
-            node_type is None or issubclass(node_type, Number)
+            node_type is None or node_type is self.erc_type
         ):
             relevant_terminals.append(
                 random.uniform(*self.erc_range)
-- 
2.43.0


From 8fd5994f7cf5fad4fc30e9d6f8cbcbe51ee613db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 15/48] fix: trees with constants in the terminal set can be
 executed

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index c6f03e5..007c98b 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -269,7 +269,12 @@ class Tree(Individual):
                 f"received variable arguments not in terminal set: {bad_vars}"
             )
 
-        missing_vars = [item for item in self.terminal_set if item not in kw]
+        # constants of the terminal set are not variables
+        missing_vars = [
+            item
+            for item in self.terminal_set
+            if isinstance(item, str) and item not in kw
+        ]
         if len(missing_vars) > 0:
             raise ValueError(
                 f"Missing variable terminals as execute kwargs: {missing_vars}"
-- 
2.43.0


From df331bb197324754d7266ad2e306428c855b8dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 16/48] fix: a constant tree is not truncated to the dtype of
 the input array

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 007c98b..d79ab7e 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -284,7 +284,7 @@ class Tree(Individual):
 
         if reshape and (isinstance(res, Number) or res.shape == np.shape(0)):
             # sometimes a tree degenrates to a scalar value
-            res = np.full_like(X[:, 0], res)
+            res = np.full(len(X), res)
         return res
 
     def _execute(self, pos, **kwargs):
-- 
2.43.0


From f463ff4f4e935552512abd8b9d0e4b39c2aaf255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 17/48] fix: an algorithm can be pickled and copied after it
 evolved

---
 eckity/evaluators/population_evaluator.py               | 6 ++++++
 eckity/multi_objective_evolution/nsga2_front_sorting.py | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/eckity/evaluators/population_evaluator.py b/eckity/evaluators/population_evaluator.py
index 98faec5..3df6b53 100644
--- a/eckity/evaluators/population_evaluator.py
+++ b/eckity/evaluators/population_evaluator.py
@@ -29,3 +29,9 @@ class PopulationEvaluator(Operator):
 
 	def set_executor(self, executor: Executor):
 		self.executor = executor
+
+	# Necessary for valid pickling, since executors cannot be pickled
+	def __getstate__(self):
+		state = self.__dict__.copy()
+		state["executor"] = None
+		return state
diff --git a/eckity/multi_objective_evolution/nsga2_front_sorting.py b/eckity/multi_objective_evolution/nsga2_front_sorting.py
index 1219128..c1eae2f 100644
--- a/eckity/multi_objective_evolution/nsga2_front_sorting.py
+++ b/eckity/multi_objective_evolution/nsga2_front_sorting.py
@@ -84,7 +84,7 @@ class NSGA2FrontSorting():
 					front[i].fitness.crowding += curr_crowding
 
 	def _init_domination_dict(self, source_inds: List[Individual]):
-		self.domination_dict = defaultdict(lambda: DominationCounter())
+		self.domination_dict = defaultdict(DominationCounter)
 		for i, ind1 in enumerate(source_inds):
 			for ind2 in source_inds[i + 1:]:
 				self._habdle_domination(ind1, ind2)
-- 
2.43.0


From 241c60527481c317e22d2458e96333023419090c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 18/48] fix: HalfCreator passes its bloat weight to the trees
 it creates

---
 eckity/creators/gp_creators/half.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eckity/creators/gp_creators/half.py b/eckity/creators/gp_creators/half.py
index f24ed9a..174b20b 100644
--- a/eckity/creators/gp_creators/half.py
+++ b/eckity/creators/gp_creators/half.py
@@ -66,6 +66,7 @@ class HalfCreator(GPTreeCreator):
                 events=self.events,
                 root_type=root_type,
                 erc_range=self.erc_range,
+                bloat_weight=self.bloat_weight,
             )
         if full_creator is None:
             full_creator = FullCreator(
@@ -75,6 +76,7 @@ class HalfCreator(GPTreeCreator):
                 events=self.events,
                 root_type=root_type,
                 erc_range=self.erc_range,
+                bloat_weight=self.bloat_weight,
             )
 
         self.grow_creator = grow_creator
-- 
2.43.0


From 158ad82e8b978cbba402a7a77d4d32e697ceb127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 19/48] fix: registering without a callback does not break
 publishing

---
 eckity/before_after_publisher.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eckity/before_after_publisher.py b/eckity/before_after_publisher.py
index fc507a5..94fccce 100644
--- a/eckity/before_after_publisher.py
+++ b/eckity/before_after_publisher.py
@@ -2,6 +2,10 @@ BEFORE_OPERATOR_EVENT_NAME = 'before_operator'
 AFTER_OPERATOR_EVENT_NAME = 'after_operator'
 
 
+def _do_nothing(sender, data_dict):
+    pass
+
+
 class BeforeAfterPublisher:
     def __init__(self, events=None, event_names=None):
         ext_events_names = event_names if event_names is not None else []
@@ -20,7 +24,7 @@ class BeforeAfterPublisher:
     def register(self, event, callback=None):
         # TODO warning if register to a fake event
         if callback is None:
-            callback = {lambda _: None}
+            callback = _do_nothing
         self._get_subscribers(event)[self.customers_id] = callback
         self.customers_id += 1
         return self.customers_id - 1
-- 
2.43.0


From bd07dd1a09f036453aa1d16b34ea671bd7a2ce4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 20/48] fix: callbacks may register and unregister while an
 event is published

---
 eckity/before_after_publisher.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eckity/before_after_publisher.py b/eckity/before_after_publisher.py
index 94fccce..97ec6b3 100644
--- a/eckity/before_after_publisher.py
+++ b/eckity/before_after_publisher.py
@@ -35,7 +35,9 @@ class BeforeAfterPublisher:
 
     def publish(self, event_name):
         struct = self.event_name_to_data(event_name)
-        for subscriber, callback in self._get_subscribers(event_name).items():
+        for subscriber, callback in list(
+            self._get_subscribers(event_name).items()
+        ):
             callback(self, struct)
 
     def event_name_to_data(self, event_name):
-- 
2.43.0


From 6bd2b67f75475ffb691b07f5872fea09bcdc56af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 21/48] fix: operators given a list of custom event names can
 publish events

---
 eckity/before_after_publisher.py | 4 ++++
 eckity/creators/creator.py       | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/eckity/before_after_publisher.py b/eckity/before_after_publisher.py
index 97ec6b3..9abe4e3 100644
--- a/eckity/before_after_publisher.py
+++ b/eckity/before_after_publisher.py
@@ -9,6 +9,10 @@ def _do_nothing(sender, data_dict):
 class BeforeAfterPublisher:
     def __init__(self, events=None, event_names=None):
         ext_events_names = event_names if event_names is not None else []
+        if isinstance(events, list):
+            # names of custom events
+            ext_events_names = ext_events_names + events
+            events = None
         if events is None:
             # Initialize events dictionary with event names as keys and subscribers as values
             ext_events_names.extend([BEFORE_OPERATOR_EVENT_NAME, AFTER_OPERATOR_EVENT_NAME])
diff --git a/eckity/creators/creator.py b/eckity/creators/creator.py
index 5946031..babc57c 100644
--- a/eckity/creators/creator.py
+++ b/eckity/creators/creator.py
@@ -8,7 +8,7 @@ from eckity.fitness.simple_fitness import SimpleFitness
 
 class Creator(Operator):
     def __init__(self, events=None, fitness_type=SimpleFitness):
-        super().__init__(events)
+        super().__init__(events=events)
         self.created_individuals = None
         self.fitness_type = fitness_type
 
-- 
2.43.0


From c0494885d07dee5364982e6aa24afb353d69381b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 22/48] fix: clones start with no selection and operator
 records

---
 eckity/individual.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eckity/individual.py b/eckity/individual.py
index 78c541d..b6d3242 100644
--- a/eckity/individual.py
+++ b/eckity/individual.py
@@ -62,6 +62,8 @@ class Individual:
     def clone(self):
         result = deepcopy(self)
         result.cloned_from = self.id
+        result.selected_by = []
+        result.applied_operators = []
         if result.update_parents:
             result.parents = []
         result.update_id()
-- 
2.43.0


From 3a0a06d7a4597d66e6d1f0a78f9ccab21dc8ffad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 23/48] fix: fitness proportionate selection is proportionate
 to fitness

---
 eckity/genetic_operators/selections/fp_selection.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/eckity/genetic_operators/selections/fp_selection.py b/eckity/genetic_operators/selections/fp_selection.py
index 356ae42..f9f84a2 100644
--- a/eckity/genetic_operators/selections/fp_selection.py
+++ b/eckity/genetic_operators/selections/fp_selection.py
@@ -1,7 +1,6 @@
 import numpy as np
 
 from overrides import override
-from scipy.special import softmax
 
 from eckity.genetic_operators import SelectionMethod
 
@@ -52,10 +51,12 @@ class FitnessProportionateSelection(SelectionMethod):
             fitness_scores = 1 / (fitness_scores + smoothing)
 
         # generate a distribution of fitness scores
+        # (uniform distribution if all of the scores are 0)
+        total = np.sum(fitness_scores)
         fit_p = (
-            softmax(fitness_scores)
-            if np.sum(fitness_scores) != 1
-            else fitness_scores
+            fitness_scores / total
+            if total != 0
+            else np.full(len(fitness_scores), 1 / len(fitness_scores))
         )
 
         # select individuals proportionate to fitness
-- 
2.43.0


From 2dfb09632f8640efb910558102ef59851b3c36a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 24/48] fix: ERC mutation keeps typed constants in their
 declared type

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 1 +
 eckity/genetic_operators/mutations/erc_mutation.py  | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index d79ab7e..afd40e6 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -330,6 +330,7 @@ class Tree(Individual):
         erc_nodes = self.filter_tree(
             lambda node: isinstance(node, TerminalNode)
             and isinstance(node.value, Number)
+            and not isinstance(node.value, bool)
         )
         return random.choice(erc_nodes) if erc_nodes else None
 
diff --git a/eckity/genetic_operators/mutations/erc_mutation.py b/eckity/genetic_operators/mutations/erc_mutation.py
index 083bdd1..7cba788 100644
--- a/eckity/genetic_operators/mutations/erc_mutation.py
+++ b/eckity/genetic_operators/mutations/erc_mutation.py
@@ -41,7 +41,11 @@ class ERCMutation(FailableOperator):
 
         mu, sigma = self.mu, self.sigma
         for terminal in leaves:
-            terminal.value = terminal.value + random.gauss(mu, sigma)
+            new_value = terminal.value + random.gauss(mu, sigma)
+            # typed integer constants must remain integers
+            if terminal.node_type is int:
+                new_value = round(new_value)
+            terminal.value = new_value
 
         self.applied_individuals = individuals
         return True, individuals
-- 
2.43.0


From 81390adfbacb68fd09dcfa135ea839c1816cd3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 25/48] fix: NSGA2Evolution does not halve the population with
 its default breeder

---
 eckity/multi_objective_evolution/nsga2_evolution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eckity/multi_objective_evolution/nsga2_evolution.py b/eckity/multi_objective_evolution/nsga2_evolution.py
index fd26bea..91a9d6d 100644
--- a/eckity/multi_objective_evolution/nsga2_evolution.py
+++ b/eckity/multi_objective_evolution/nsga2_evolution.py
@@ -4,8 +4,8 @@ from time import time
 from overrides import overrides
 
 from eckity.algorithms.algorithm import Algorithm
-from eckity.breeders.simple_breeder import SimpleBreeder
 from eckity.evaluators import SimplePopulationEvaluator
+from eckity.multi_objective_evolution.nsga2_breeder import NSGA2Breeder
 from eckity.multi_objective_evolution.nsga2_front_sorting import (
     NSGA2FrontSorting,
 )
@@ -20,7 +20,7 @@ class NSGA2Evolution(Algorithm):
         self,
         population,
         statistics=None,
-        breeder=SimpleBreeder(),
+        breeder=NSGA2Breeder(),
         population_evaluator=SimplePopulationEvaluator(),
         NSGA2FrontSorting=NSGA2FrontSorting(),
         max_generation=500,
-- 
2.43.0


From 8f139550928c06d6e2093e8174251b0ab5a35daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:04 +0000
Subject: [PATCH 26/48] fix: NSGA2Evolution default termination checker cannot
 handle several objectives

---
 eckity/multi_objective_evolution/nsga2_evolution.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eckity/multi_objective_evolution/nsga2_evolution.py b/eckity/multi_objective_evolution/nsga2_evolution.py
index 91a9d6d..92eab14 100644
--- a/eckity/multi_objective_evolution/nsga2_evolution.py
+++ b/eckity/multi_objective_evolution/nsga2_evolution.py
@@ -10,7 +10,6 @@ from eckity.multi_objective_evolution.nsga2_front_sorting import (
     NSGA2FrontSorting,
 )
 from eckity.random import RNG
-from eckity.termination_checkers import ThresholdFromTargetTerminationChecker
 
 logger = logging.getLogger(__name__)
 
@@ -26,7 +25,7 @@ class NSGA2Evolution(Algorithm):
         max_generation=500,
         events=None,
         event_names=None,
-        termination_checker=ThresholdFromTargetTerminationChecker(threshold=0),
+        termination_checker=None,
         executor="thread",
         max_workers=None,
         random_generator=RNG(),
-- 
2.43.0


From 5a28cdc25f846c84f9c8f61ebca8fef853fef688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:04 +0000
Subject: [PATCH 27/48] fix: NSGA2Evolution shuts its executor down when it
 finishes

---
 eckity/multi_objective_evolution/nsga2_evolution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eckity/multi_objective_evolution/nsga2_evolution.py b/eckity/multi_objective_evolution/nsga2_evolution.py
index 92eab14..9bacffd 100644
--- a/eckity/multi_objective_evolution/nsga2_evolution.py
+++ b/eckity/multi_objective_evolution/nsga2_evolution.py
@@ -153,6 +153,7 @@ class NSGA2Evolution(Algorithm):
         """
         Finish the evolutionary run by showing the best individual and printing the best fitness
         """
+        super().finish()
         self.best_of_run_.show()
         logger.info(self.best_of_run_.get_pure_fitness())
 
-- 
2.43.0


From 59220f2c744d5739ec110f6d6da97900a4f8a4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:04 +0000
Subject: [PATCH 28/48] fix: NSGA2Evolution reports a non-dominated individual
 as best of run

---
 eckity/multi_objective_evolution/nsga2_evolution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eckity/multi_objective_evolution/nsga2_evolution.py b/eckity/multi_objective_evolution/nsga2_evolution.py
index 9bacffd..03822a8 100644
--- a/eckity/multi_objective_evolution/nsga2_evolution.py
+++ b/eckity/multi_objective_evolution/nsga2_evolution.py
@@ -101,6 +101,8 @@ class NSGA2Evolution(Algorithm):
 
         self.NSGA2FrontSorting.select_for_population(self.population)
         self.best_of_gen = self._get_pareto_fronts()
+        # the selection is elitist, so the first front is the best of run
+        self.best_of_run_ = self.best_of_gen[0][0]
 
     def _get_pareto_fronts(self):
         """
-- 
2.43.0


From 85915e19fa5faa56d495209cf8f324b52696e6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:24 +0000
Subject: [PATCH 29/48] fix: a fitted estimator is still fitted after pickling

---
 eckity/sklearn_compatible/sklearn_wrapper.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/eckity/sklearn_compatible/sklearn_wrapper.py b/eckity/sklearn_compatible/sklearn_wrapper.py
index 832dece..0e821d0 100644
--- a/eckity/sklearn_compatible/sklearn_wrapper.py
+++ b/eckity/sklearn_compatible/sklearn_wrapper.py
@@ -73,7 +73,10 @@ class SklearnWrapper:
     #     return self.is_fitted_
 
     def get_params(self, deep=True):
-        return self.__getstate__()
+        params = self.__dict__.copy()
+        # the fitted state is not a parameter
+        params.pop('is_fitted_', None)
+        return params
 
     def set_params(self, **parameters):
         self.algorithm.__setstate__(parameters)
@@ -84,10 +87,7 @@ class SklearnWrapper:
         pass
 
     def __getstate__(self):
-        state = self.__dict__.copy()
-        if 'is_fitted_' in state:
-            del state['is_fitted_']
-        return state
+        return self.__dict__.copy()
 
     def __setstate__(self, state):
         self.__dict__.update(state)
-- 
2.43.0


From 43599024fd6e5c51e2a6b06a622568b8326a9c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:29 +0000
Subject: [PATCH 30/48] fix: a tree with constants in its terminal set can be
 shown

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index afd40e6..28a130d 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -505,7 +505,7 @@ class Tree(Individual):
             return typed_add(1.0, 2.0)
         """
         args = (
-            list(self.terminal_set.keys())
+            [str(k) for k in self.terminal_set]
             if None in self.terminal_set.values()
             else [f"{k}: {v.__name__}" for k, v in self.terminal_set.items()]
         )
-- 
2.43.0


From 727efd5b93f8c29d644fcf987fc232ee5794fe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:34 +0000
Subject: [PATCH 31/48] fix: a constant equal to a terminal of another type
 keeps its own type

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 28a130d..840fcfa 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -217,11 +217,8 @@ class Tree(Individual):
 
         terminal = random.choice(relevant_terminals)
 
-        # erc terminal will be typeless in untyped case,
-        # and int/float in typed case
-        default_type = None if node_type is None else type(terminal)
-        node_type = self.terminal_set.get(terminal, default_type)
-
+        # terminals have the requested type, ERCs included
+        # (an ERC may be equal to a terminal of another type, e.g. 1 == True)
         return TerminalNode(terminal, node_type=node_type)
 
     def execute(self, *args, **kwargs) -> object:
-- 
2.43.0


From 64e38cbb1dd6d7a28fbb4c294a4fc26ebdb2c679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:23 +0000
Subject: [PATCH 32/48] fix: creation probabilities may sum to 1 up to rounding

---
 eckity/subpopulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/subpopulation.py b/eckity/subpopulation.py
index a7d2d1e..31ca634 100644
--- a/eckity/subpopulation.py
+++ b/eckity/subpopulation.py
@@ -101,7 +101,7 @@ class Subpopulation:
                 f"Number of creators ({len(creators)}) \
                 must match number of creation probabilities {(len(pcr))}!"
             )
-        if sum(pcr) != 1:
+        if not np.isclose(sum(pcr), 1):
             raise ValueError(
                 f"Sum of creation probabilities ({pcr}) must be 1!"
             )
-- 
2.43.0


From 4b8006388ae4469b95f28506fbfff81163b6bbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:07 +0000
Subject: [PATCH 33/48] fix: f_and and f_or are logical and accept floats

---
 eckity/base/untyped_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eckity/base/untyped_functions.py b/eckity/base/untyped_functions.py
index c94c5d9..80e271a 100644
--- a/eckity/base/untyped_functions.py
+++ b/eckity/base/untyped_functions.py
@@ -100,12 +100,12 @@ def f_ifgt(x, y, z, w):
 
 def f_and(x, y):
     """x and y"""
-    return np.bitwise_and(x, y)
+    return np.logical_and(x, y).astype(int)
 
 
 def f_or(x, y):
     """x or y"""
-    return np.bitwise_or(x, y)
+    return np.logical_or(x, y).astype(int)
 
 
 def f_not(x):
-- 
2.43.0


From 3a805d5f1532ee58c62b997a24065322dc46b07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:19 +0000
Subject: [PATCH 34/48] fix: argmax2floats accepts a constant next to an array

---
 eckity/base/typed_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/base/typed_functions.py b/eckity/base/typed_functions.py
index 3ce0c5d..56e9ec5 100644
--- a/eckity/base/typed_functions.py
+++ b/eckity/base/typed_functions.py
@@ -121,7 +121,7 @@ def if_then_else(test: bool, dit: Any, dif: Any) -> float:
 
 
 def argmax2floats(x0: float, x1: float) -> t_argmax:
-    return np.argmax([x0, x1], axis=0)
+    return np.argmax(np.broadcast_arrays(x0, x1), axis=0)
 
 
 def and2ints(x: int, y: int) -> int:
-- 
2.43.0


From d8e4879e0d383714aaa0b8d4ce4a87cec7da9e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:35 +0000
Subject: [PATCH 35/48] fix: algorithms with vector mutations can be pickled

---
 .../mutations/vector_random_mutation.py       | 58 ++++++++++---------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/eckity/genetic_operators/mutations/vector_random_mutation.py b/eckity/genetic_operators/mutations/vector_random_mutation.py
index 1f3cfff..6b63172 100644
--- a/eckity/genetic_operators/mutations/vector_random_mutation.py
+++ b/eckity/genetic_operators/mutations/vector_random_mutation.py
@@ -43,9 +43,6 @@ class FloatVectorUniformOnePointMutation(VectorNPointMutation):
             n=1,
             probability=probability,
             arity=arity,
-            mut_val_getter=lambda vec, index: vec.get_random_number_in_bounds(
-                index
-            ),
             events=events,
         )
 
@@ -72,9 +69,6 @@ class FloatVectorUniformNPointMutation(VectorNPointMutation):
             n=n,
             probability=probability,
             arity=arity,
-            mut_val_getter=lambda vec, index: vec.get_random_number_in_bounds(
-                index
-            ),
             events=events,
         )
 
@@ -115,17 +109,20 @@ class FloatVectorGaussOnePointMutation(VectorNPointMutation):
             events=None,
             attempts=5,
     ):
+        self.mu = mu
+        self.sigma = sigma
         super().__init__(
             n=1,
             probability=probability,
             arity=arity,
-            mut_val_getter=lambda vec, index: vec.get_random_number_with_gauss(
-                index, mu, sigma
-            ),
+            mut_val_getter=self._gauss_value,
             events=events,
             attempts=attempts,
         )
 
+    def _gauss_value(self, vec, index):
+        return vec.get_random_number_with_gauss(index, self.mu, self.sigma)
+
     def on_fail(self, payload):
         """
         Handle gauss mutation failure by performing uniform mutation.
@@ -173,17 +170,20 @@ class FloatVectorGaussNPointMutation(VectorNPointMutation):
             events=None,
             attempts=5,
     ):
+        self.mu = mu
+        self.sigma = sigma
         super().__init__(
             n=n,
             probability=probability,
             arity=arity,
-            mut_val_getter=lambda vec, index: vec.get_random_number_with_gauss(
-                index, mu, sigma
-            ),
+            mut_val_getter=self._gauss_value,
             events=events,
             attempts=attempts,
         )
 
+    def _gauss_value(self, vec, index):
+        return vec.get_random_number_with_gauss(index, self.mu, self.sigma)
+
     def on_fail(self, payload):
         """
         Handle gauss mutation failure by performing uniform mutation.
@@ -215,9 +215,16 @@ class IntVectorOnePointMutation(VectorNPointMutation):
         self.probability_for_each = probability_for_each
         super().__init__(probability=probability,
                          arity=arity,
-                         mut_val_getter=lambda individual, index: individual.get_random_number_in_bounds(
-                             index) if random() <= self.probability_for_each else individual.cell_value(index),
-                         events=events, cell_selector=lambda vec: list(range(vec.size())))
+                         mut_val_getter=self._maybe_mutated_value,
+                         events=events, cell_selector=self._all_cells)
+
+    def _maybe_mutated_value(self, individual, index):
+        if random() <= self.probability_for_each:
+            return individual.get_random_number_in_bounds(index)
+        return individual.cell_value(index)
+
+    def _all_cells(self, vec):
+        return list(range(vec.size()))
 
 
 class IntVectorNPointMutation(VectorNPointMutation):
@@ -241,9 +248,6 @@ class IntVectorNPointMutation(VectorNPointMutation):
         super().__init__(
             probability=probability,
             arity=arity,
-            mut_val_getter=lambda individual, index: individual.get_random_number_in_bounds(
-                index
-            ),
             events=events,
             n=n,
         )
@@ -268,13 +272,14 @@ class BitStringVectorFlipMutation(VectorNPointMutation):
         super().__init__(
             probability=probability,
             arity=arity,
-            mut_val_getter=lambda individual, index: individual.bit_flip(
-                index
-            ),
+            mut_val_getter=self._flipped_value,
             n=1,
             events=events,
         )
 
+    def _flipped_value(self, individual, index):
+        return individual.bit_flip(index)
+
 
 class BitStringVectorNFlipMutation(VectorNPointMutation):
     """
@@ -308,11 +313,12 @@ class BitStringVectorNFlipMutation(VectorNPointMutation):
         super().__init__(
             probability=probability,
             arity=arity,
-            mut_val_getter=lambda individual, index: (
-                individual.bit_flip(index)
-                if random() <= self.probability_for_each
-                else individual.cell_value(index)
-            ),
+            mut_val_getter=self._maybe_flipped_value,
             events=events,
             n=n
         )
+
+    def _maybe_flipped_value(self, individual, index):
+        if random() <= self.probability_for_each:
+            return individual.bit_flip(index)
+        return individual.cell_value(index)
-- 
2.43.0


From ba2f172028cd1f4bd961abb3f13df5f22f230710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:49 +0000
Subject: [PATCH 36/48] fix: fitted estimators predict any array-like input

---
 eckity/sklearn_compatible/sk_classifier.py   | 3 ++-
 eckity/sklearn_compatible/sklearn_wrapper.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/eckity/sklearn_compatible/sk_classifier.py b/eckity/sklearn_compatible/sk_classifier.py
index b65f3ed..69109f0 100644
--- a/eckity/sklearn_compatible/sk_classifier.py
+++ b/eckity/sklearn_compatible/sk_classifier.py
@@ -1,3 +1,4 @@
+import numpy as np
 from sklearn.base import ClassifierMixin
 from sklearn.utils.validation import check_is_fitted
 
@@ -32,7 +33,7 @@ class SKClassifier(SklearnWrapper, ClassifierMixin):
         )
 
         # ignore y since we only need execute result and evolution is finished
-        clf_eval.set_context((X, None))
+        clf_eval.set_context((np.asarray(X), None))
 
         return clf_eval.classify_individual(self.algorithm.best_of_run_)
 
diff --git a/eckity/sklearn_compatible/sklearn_wrapper.py b/eckity/sklearn_compatible/sklearn_wrapper.py
index 0e821d0..335f533 100644
--- a/eckity/sklearn_compatible/sklearn_wrapper.py
+++ b/eckity/sklearn_compatible/sklearn_wrapper.py
@@ -1,3 +1,4 @@
+import numpy as np
 from sklearn.utils.validation import check_is_fitted, check_X_y
 
 
@@ -67,7 +68,7 @@ class SklearnWrapper:
         # Check is fit had been called
         check_is_fitted(self)
 
-        return self.algorithm.best_of_run_.execute(X)
+        return self.algorithm.best_of_run_.execute(np.asarray(X))
 
     # def __sklearn_is_fitted__(self):
     #     return self.is_fitted_
-- 
2.43.0


From e63a64d6051ed3abe5ba1edef2ced222225a6521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:49 +0000
Subject: [PATCH 37/48] fix: trees with an argmax root can be pickled

---
 eckity/base/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eckity/base/types.py b/eckity/base/types.py
index 7bcd016..2a4255f 100644
--- a/eckity/base/types.py
+++ b/eckity/base/types.py
@@ -1 +1,2 @@
-t_argmax = type("argmax", (int,), {})
+class t_argmax(int):
+    pass
-- 
2.43.0


From a3f72c14712786b1258abe876216a41551d83f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:21 +0000
Subject: [PATCH 38/48] fix: MOEBestWorstStatistics can be pickled

---
 .../moe_best_worst_statistics.py                       | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/eckity/multi_objective_evolution/moe_best_worst_statistics.py b/eckity/multi_objective_evolution/moe_best_worst_statistics.py
index 398c382..9f1fbd7 100644
--- a/eckity/multi_objective_evolution/moe_best_worst_statistics.py
+++ b/eckity/multi_objective_evolution/moe_best_worst_statistics.py
@@ -77,3 +77,13 @@ class MOEBestWorstStatistics(Statistics):
         result = [list(x) for x in set(tuple(x) for x in result)]  # unique
         assert len(result) in [1, 2]
         return result
+
+    # Necessary for valid pickling, since streams cannot be pickled
+    def __getstate__(self):
+        state = self.__dict__.copy()
+        del state["output_stream"]
+        return state
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self.output_stream = stdout
-- 
2.43.0


From a6334dbb3eefee42abdd24c7bb2657b7c1a6f0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:16 +0000
Subject: [PATCH 39/48] fix: publishers made over an existing events table give
 handles that are not in use

---
 eckity/before_after_publisher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eckity/before_after_publisher.py b/eckity/before_after_publisher.py
index 9abe4e3..4e63f8a 100644
--- a/eckity/before_after_publisher.py
+++ b/eckity/before_after_publisher.py
@@ -20,7 +20,10 @@ class BeforeAfterPublisher:
         else:
             # Assign an already existing dictionary, in case of deserialization/clone
             self.events = events
-        self.customers_id = 0
+        # handles must differ from those of existing subscribers
+        self.customers_id = max(
+            (h for subs in self.events.values() for h in subs), default=-1
+        ) + 1
 
     def _get_subscribers(self, event_name):
         return self.events[event_name]
-- 
2.43.0


From 1513a1528a02ba9fdccacfda81b7f723e00c538c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:30 +0000
Subject: [PATCH 40/48] fix: any subtree can be chosen, also one whose root
 equals another node

---
 .../gp/tree/tree_individual.py                | 40 ++++++++++++-------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 840fcfa..0554e31 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -335,30 +335,42 @@ class Tree(Individual):
         self,
         node_type: Optional[type] = None
     ) -> Optional[List[TreeNode]]:
-        relevant_nodes = self.filter_tree(
-            lambda node: node.node_type is None  # untyped case
-            or (
-                node_type is None and node != self.root
-            )  # typed case with first invocation
-            or (
-                node.node_type == node_type and node != self.root
-            )  # typed case with subsequent invocations
-        )
-        if not relevant_nodes:
+        # choose a position rather than a node: nodes can be equal
+        # (e.g. two occurrences of the same terminal)
+        relevant_indices = [
+            i
+            for i, node in enumerate(self.tree)
+            if node.node_type is None  # untyped case
+            # typed case with first invocation
+            or (node_type is None and i > 0)
+            # typed case with subsequent invocations
+            or (node.node_type == node_type and i > 0)
+        ]
+        if not relevant_indices:
             return None
-        subtree_root = random.choice(relevant_nodes)
 
-        return self._get_subtree_by_root(subtree_root)
+        return self._get_subtree_by_index(random.choice(relevant_indices))
 
     def _get_subtree_by_root(self, subtree_root: TreeNode) -> List[TreeNode]:
-        start_i = self.tree.index(subtree_root)
+        return self._get_subtree_by_index(self.tree.index(subtree_root))
 
+    def _get_subtree_by_index(self, start_i: int) -> List[TreeNode]:
         if start_i == 0:
             return self.tree
 
         end_i = self._find_subtree_end([start_i])
         return self.tree[start_i: end_i + 1]
 
+    def _find_subtree(self, subtree: List[TreeNode]) -> int:
+        """Find the start index of a subtree of this tree
+        (by its node objects, since other nodes can be equal to them).
+        """
+        n = len(subtree)
+        for i in range(len(self.tree) - n + 1):
+            if all(a is b for a, b in zip(self.tree[i: i + n], subtree)):
+                return i
+        return self.tree.index(subtree[0])
+
     def replace_subtree(
         self, old_subtree: List[TreeNode], new_subtree: List[TreeNode]
     ) -> None:
@@ -373,7 +385,7 @@ class Tree(Individual):
         -------
         None
         """
-        start_i = self.tree.index(old_subtree[0])
+        start_i = self._find_subtree(old_subtree)
         end_i = start_i + len(old_subtree)
         left_part = self.tree[:start_i]
         right_part = self.tree[end_i:]
-- 
2.43.0


From 2c3d9fd11135d7a8e2b7e3fae32bdfc0a53154f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:04 +0000
Subject: [PATCH 41/48] fix: add_tree checks the type of nodes below the second
 level

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 0554e31..d841410 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -133,10 +133,10 @@ class Tree(Individual):
             func_types = get_func_types(node.function)
             for i in range(node.n_args):
                 pos[0] += 1
-                res = self._should_add(pos, node)
-                if res:
+                if pos[0] == self.size():
                     return func_types[i] == new_node.node_type
-                elif res is not None:
+                res = self._should_add(pos, new_node)
+                if res is not None:
                     return res
         return res
 
-- 
2.43.0


From e4360beb166fcc4d0dc14238bcec21f799daed54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:56 +0000
Subject: [PATCH 42/48] fix: a half-and-half creator leaves the depths of the
 creators it was given as they were

---
 eckity/creators/gp_creators/half.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eckity/creators/gp_creators/half.py b/eckity/creators/gp_creators/half.py
index 174b20b..61416f5 100644
--- a/eckity/creators/gp_creators/half.py
+++ b/eckity/creators/gp_creators/half.py
@@ -116,6 +116,9 @@ class HalfCreator(GPTreeCreator):
 
         individuals = []
 
+        # the given creators are only borrowed, keep their own depths
+        own_depths = self.grow_creator.init_depth, self.full_creator.init_depth
+
         for depth in range(min_depth, max_depth + 1):
             # first create `group_size` individuals using grow method
             self.grow_creator.init_depth = (min_depth, depth)
@@ -139,5 +142,7 @@ class HalfCreator(GPTreeCreator):
             )
             individuals.extend(missing_inds)
 
+        self.grow_creator.init_depth, self.full_creator.init_depth = own_depths
+
         self.created_individuals = individuals
         return individuals
-- 
2.43.0


From 5db089c887d7c8378544c5f9ff489d146cd963cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:53 +0000
Subject: [PATCH 43/48] fix: the depth of a tree with a function without
 arguments is computed

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index d841410..ea3ccaf 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -167,7 +167,7 @@ class Tree(Individual):
             for _ in range(node.n_args):
                 pos[0] += 1
                 depths.append(1 + self._depth(pos, d + 1))
-            return max(depths)
+            return max(depths, default=0)
         else:
             return 0
 
-- 
2.43.0


From 1c2f9ad1f09e05c3fea0d4b14bbbc459b5419229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 44/48] fix: trees made without a fitness do not share one

---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index ea3ccaf..68565d9 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -34,7 +34,7 @@ class Tree(Individual):
 
     def __init__(
         self,
-        fitness: Fitness = GPFitness(),
+        fitness: Optional[Fitness] = None,
         function_set: List[Callable] = None,
         terminal_set: Union[Dict[Any, type], List[Any]] = None,
         tree: List[TreeNode] = None,
@@ -69,6 +69,9 @@ class Tree(Individual):
         ValueError
             If typed function is used with untyped terminals.
         """
+        # not a default argument: each individual needs its own fitness
+        if fitness is None:
+            fitness = GPFitness()
         super().__init__(fitness, update_parents=update_parents)
 
         self.erc_range = erc_range
-- 
2.43.0


From 63033137b0fabc5fad7ef1c5ff60559cf2faec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 45/48] fix: algorithms made without a breeder or evaluator do
 not share one

---
 eckity/algorithms/simple_evolution.py               |  2 +-
 eckity/multi_objective_evolution/nsga2_evolution.py | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/eckity/algorithms/simple_evolution.py b/eckity/algorithms/simple_evolution.py
index fd50949..409ce14 100644
--- a/eckity/algorithms/simple_evolution.py
+++ b/eckity/algorithms/simple_evolution.py
@@ -85,7 +85,7 @@ class SimpleEvolution(Algorithm):
         self,
         population,
         statistics=None,
-        breeder: SimpleBreeder = SimpleBreeder(),
+        breeder: SimpleBreeder = None,
         population_evaluator: SimplePopulationEvaluator = None,
         max_generation=500,
         events=None,
diff --git a/eckity/multi_objective_evolution/nsga2_evolution.py b/eckity/multi_objective_evolution/nsga2_evolution.py
index 03822a8..47bdba6 100644
--- a/eckity/multi_objective_evolution/nsga2_evolution.py
+++ b/eckity/multi_objective_evolution/nsga2_evolution.py
@@ -19,8 +19,8 @@ class NSGA2Evolution(Algorithm):
         self,
         population,
         statistics=None,
-        breeder=NSGA2Breeder(),
-        population_evaluator=SimplePopulationEvaluator(),
+        breeder=None,
+        population_evaluator=None,
         NSGA2FrontSorting=NSGA2FrontSorting(),
         max_generation=500,
         events=None,
@@ -51,6 +51,13 @@ class NSGA2Evolution(Algorithm):
         if statistics is None:
             statistics = []
 
+        # not default arguments: each algorithm needs its own ones
+        if breeder is None:
+            breeder = NSGA2Breeder()
+
+        if population_evaluator is None:
+            population_evaluator = SimplePopulationEvaluator()
+
         super().__init__(
             population,
             statistics=statistics,
-- 
2.43.0


From 33455915f2e79e1b31b50fcab78bc91ab8b7aa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 46/48] fix: the types of a function with positional-only
 parameters are in their order

---
 eckity/genetic_encodings/gp/tree/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/utils.py b/eckity/genetic_encodings/gp/tree/utils.py
index 8e97965..cbbb073 100644
--- a/eckity/genetic_encodings/gp/tree/utils.py
+++ b/eckity/genetic_encodings/gp/tree/utils.py
@@ -2,6 +2,7 @@
 This module implements some utility functions.
 """
 
+from inspect import getfullargspec
 from typing import Callable, Dict, List, Union, get_type_hints
 
 import numpy as np
@@ -96,7 +97,9 @@ def get_func_types(f: Callable) -> List[type]:
     [None, None, None]
     """
     params_types: Dict = get_type_hints(f)
-    type_list = list(params_types.values())
+    # get_type_hints does not keep the order of positional-only parameters
+    names = [*getfullargspec(f)[0], "return"]
+    type_list = [params_types[p] for p in names if p in params_types]
     if not type_list:
         # If we don't have type hints, assign None
         type_list = [None] * (arity(f) + 1)
-- 
2.43.0


From a25273ba2e3ff93390c5baf16d29016f709271f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:52 +0000
Subject: [PATCH 47/48] fix: a half creator gives borrowed creators their
 depths back when creation fails

---
 eckity/creators/gp_creators/half.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/eckity/creators/gp_creators/half.py b/eckity/creators/gp_creators/half.py
index 61416f5..6930126 100644
--- a/eckity/creators/gp_creators/half.py
+++ b/eckity/creators/gp_creators/half.py
@@ -100,6 +100,25 @@ class HalfCreator(GPTreeCreator):
         Returns
         -------
 
+        """
+        # the given creators are only borrowed, keep their own depths
+        own_depths = self.grow_creator.init_depth, self.full_creator.init_depth
+
+        try:
+            self.created_individuals = self._create_halves(
+                n_individuals, higher_is_better
+            )
+        finally:
+            self.grow_creator.init_depth, self.full_creator.init_depth = own_depths
+
+        return self.created_individuals
+
+    def _create_halves(
+        self, n_individuals: int, higher_is_better: bool
+    ) -> List[Tree]:
+        """
+        Create the individuals of `create_individuals`, with the depths of the
+        grow and full creators set to those of each group.
         """
         min_depth, max_depth = self.init_depth
 
@@ -116,9 +135,6 @@ class HalfCreator(GPTreeCreator):
 
         individuals = []
 
-        # the given creators are only borrowed, keep their own depths
-        own_depths = self.grow_creator.init_depth, self.full_creator.init_depth
-
         for depth in range(min_depth, max_depth + 1):
             # first create `group_size` individuals using grow method
             self.grow_creator.init_depth = (min_depth, depth)
@@ -142,7 +158,4 @@ class HalfCreator(GPTreeCreator):
             )
             individuals.extend(missing_inds)
 
-        self.grow_creator.init_depth, self.full_creator.init_depth = own_depths
-
-        self.created_individuals = individuals
         return individuals
-- 
2.43.0


From 874d520b607e50b0a1e69266e991fef6c1b90dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:24 +0000
Subject: [PATCH 48/48] fix: trees with a variable named pos can be executed

Tree._execute took the position as a parameter named pos next to the
variables, so that executing a tree with pos in its terminal set raised
TypeError (multiple values for argument 'pos').
---
 eckity/genetic_encodings/gp/tree/tree_individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eckity/genetic_encodings/gp/tree/tree_individual.py b/eckity/genetic_encodings/gp/tree/tree_individual.py
index 68565d9..bdf53cc 100644
--- a/eckity/genetic_encodings/gp/tree/tree_individual.py
+++ b/eckity/genetic_encodings/gp/tree/tree_individual.py
@@ -287,7 +287,7 @@ class Tree(Individual):
             res = np.full(len(X), res)
         return res
 
-    def _execute(self, pos, **kwargs):
+    def _execute(self, pos, /, **kwargs):
         """
         Recursively execute the tree by traversing it in a depth-first order
         (pos is a size-1 list so as to pass "by reference"
-- 
2.43.0

